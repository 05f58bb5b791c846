"""Development: confirm planted bugs in scratch copies and write /verif/seeded/<id>/.

plant.py SPEC.py [--all-checks] [id ...]   SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json, os, re, runpy, shutil, subprocess, sys, concurrent.futures as cf
PY = '/opt/venv/bin/python'
HEAD0 = '87ae4a1'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def own_lines(file):
    """Line numbers added by fix commits."""
    out = sh(f'git blame -s {file}', '/repo').stdout.splitlines()
    return {i for i, l in enumerate(out, 1) if not l.startswith('^' + HEAD0) and not l.lstrip('^').startswith(HEAD0)}


def plant(b, all_checks=False, keep=True):
    d = f'/tmp/plant/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache'))
    try:
        for f, old, new in b['edits']:
            p = f'{d}/oblate/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{b["id"]}: {s.count(old)} matches in {f}: {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', d).stdout
        # removed lines must be original
        cur, ln, removed, bad = None, 0, 0, []
        own = {}
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                own[cur] = own_lines(cur)
            elif l.startswith('@@'):
                ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                removed += 1
                if ln in own[cur]:
                    bad.append(l)
                ln += 1
            elif l.startswith(' '):
                ln += 1
        if bad:
            return f'{b["id"]}: removed={removed}, touches own lines {bad}'
        t = sh(f'{PY} -m pytest -q -x tests -p no:cacheprovider', d, {'PYTHONPATH': d})
        m = re.search(r'(\d+) passed', t.stdout)
        if t.returncode or not m or int(m.group(1)) < 84:
            return f'{b["id"]}: TESTS FAIL {t.stdout[-300:]}'
        o = f'/tmp/plant/out-{b["id"]}'
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(f'{o}/patch.diff', 'w').write(diff)
        open(f'{o}/demo.sh', 'w').write(f'#!/bin/bash\nexec {PY} -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{o}/demo.sh', 0o755)
        open(f'{o}/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + b['demo'].strip() + '\n')
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{o}/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {o}/demo.sh', '/repo', timeout=200)
        r1 = sh(f'bash {o}/demo.sh', d, {'PYTHONPATH': d}, timeout=200)
        if r0.returncode != 0 or r1.returncode == 0:
            return f'{b["id"]}: DEMO clean={r0.returncode} patched={r1.returncode}\n{r0.stderr[-600:]}\n{r1.stdout[-300:]}'
        caught, missed = [], []
        props = [f'C{i:02}' for i in range(1, len(open('/verif/properties.jsonl').read().splitlines()) + 1)] if all_checks else [b['prop']]
        for p in props:
            c = sh(f'{PY} run.py {p} --tier quick --jobs 4', '/verif', {'PYTHONPATH': d, 'OBLMON_REPO': d, 'VERIF_SEED': '1', 'OBLMON_EVIDENCE': o})
            ok = c.returncode == 1 and f'VIOLATION property={p} ' in c.stdout
            (caught if ok else missed).append(p if c.returncode in (0, 1) else f'{p}(rc{c.returncode})')
            open(f'{o}.{p}.log', 'w').write(c.stdout + c.stderr)
        for f in os.listdir(o):
            if re.match(r'C\d+\.', f):
                os.remove(f'{o}/{f}')
        if keep:
            shutil.rmtree(f'/verif/seeded/{b["id"]}', ignore_errors=True)
            shutil.copytree(o, f'/verif/seeded/{b["id"]}')
        err = r1.stderr.strip().splitlines()[-1:] 
        return f'{b["id"]} ({b["prop"]}): ok; caught by {caught}; {"MISSED by " + str(missed) if not all_checks else ""} demo: {err}'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    spec = runpy.run_path(sys.argv[1])['BUGS']
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    bugs = [b for b in spec if not ids or b['id'] in ids]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: plant(b, '--all-checks' in sys.argv), bugs):
            print(r, flush=True)
