"""Writes MANIFEST.json (run with python3-vt)."""
import json
import jsonschema
PY = '/opt/venv/bin/python'
TECH = {
 'C01': 'runtime monitoring: generated workloads, online comparison with an executable reference model',
 'C02': 'runtime monitoring: complete error reports compared with a reference model',
 'C03': 'runtime monitoring: identity-level attribution monitor with re-entrant callbacks',
 'C04': 'runtime monitoring: fault injection at every callback, state snapshots before and after',
 'C05': 'runtime monitoring: differential monitor of three entry points plus reference model',
 'C06': 'runtime monitoring: invariant checked over operation histories',
 'C07': 'runtime monitoring: reference model of dump over reachable states',
 'C08': 'runtime monitoring: round-trip oracle over reachable states',
 'C09': 'runtime monitoring: oracle of plain Python conversions over a value zoo',
 'C10': 'runtime monitoring: reference matcher for type expressions, all entry points',
 'C11': 'runtime monitoring: reference matcher for typed dictionaries, all entry points',
 'C12': 'runtime monitoring: key bookkeeping oracle, warning capture, mutation traps',
 'C13': 'runtime monitoring: trace checker over recorded validator events',
 'C14': 'runtime monitoring: predicate oracles at and around every boundary',
 'C15': 'runtime monitoring: model-based histories (ordered lists) over registries and copies',
 'C16': 'runtime monitoring: method-resolution-order model over random class graphs, repeated probes',
 'C17': 'runtime monitoring: model-based histories over families of copies',
 'C18': 'runtime monitoring: differential replay in fresh process and fresh context, weak references',
 'C19': 'runtime monitoring: controlled scheduler over source lines and callbacks, sequential oracle',
 'C20': 'runtime monitoring: deep snapshots and mutation-trapping arguments',
 'C21': 'runtime monitoring: reference renderer for error reports',
 'C22': 'runtime monitoring: event log of format_error and error classes versus model',
 'C23': 'runtime monitoring: exception injection at every callback position',
 'C24': 'runtime monitoring: configuration chain model over class trees',
 'C25': 'runtime monitoring: trace checker over instrumented hooks and contexts',
 'C26': 'runtime monitoring: model-based read monitor over histories',
 'C27': 'runtime monitoring: fault injection by misuse, descriptions of everything before and after',
 'C28': 'runtime monitoring: declared-versus-reported invariant over histories',
}
EXTRA = {
 'C19': ' Interleavings are sampled (random, round-robin and few-preemption schedules at line or bytecode granularity), not enumerated.',
 'C18': ' The reference outcome comes from processes forked before any operation ran.',
}
checks = []
for line in open('/verif/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    checks.append(dict(property=i, quick_cmd=f'{PY} run.py {i} --tier quick', thorough_cmd=f'{PY} run.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=TECH[i], level='exploration',
                       level_note='Held on the executions generated from VERIF_SEED and observed by the monitors (counts in the evidence file); nothing is claimed for paths '
                                  'the workload does not drive. Trusts the reference model in /verif/oblmon and CPython 3.12.' + EXTRA.get(i, '')))
m = dict(version=1, setup_cmd=f'{PY} -c "import oblate, sys; sys.path.insert(0, \'.\'); import oblmon.world"', checks=checks, not_applicable=[],
         notes='Pure Python, no native code: no compiler sanitizers apply; the monitors run the code of /repo in place, without hooks. Genuine defects found are listed in KNOWN_FINDINGS.txt (all repaired by fix: commits).')
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
