"""Runner: cases, counters, evidence, violations, replay."""
import argparse
import collections
import faulthandler
import gc
import importlib
import json
import mmap
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('OBLMON_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Violation(Exception):
    """The oracle saw the property broken."""
    def __init__(self, what, **info):
        what = short(what, 2500)
        super().__init__('see above')
        self.what = what
        self.info = {k: short(v) for k, v in info.items()}


class Inconclusive(Exception):
    pass


def short(v, n=3000):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as e:  # objects with a failing repr
        s = f'<{type(v).__name__}: unprintable {type(e).__name__}>'
    s = s.encode('utf-8', 'backslashreplace').decode()
    return s if len(s) <= n else s[:n] + f'...({len(s)})'


class Mon:
    """What the monitors observed."""
    def __init__(self):
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = set()
        self.evaluations = 0

    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, *sig):
        """Record one distinct non-trivial observation."""
        self.sigs.add(zlib.crc32(repr(sig).encode('utf-8', 'surrogatepass')))

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(short(text, 700))

    def known_finding(self, text):
        self.known.add(text)


def check(cond, what, r=None, **info):
    if not cond:
        if r is not None:
            info = {**r.describe(), **info}
        raise Violation(what, **info)


def run_case(mod, seed, i, mon, tier):
    rng = random.Random(f'{seed}:{mod.ID}:{i}')
    mon.evaluations += 1
    try:
        mod.case(rng, mon, i, tier)
        return None
    except Inconclusive:
        raise
    except Violation as v:
        return dict(what=v.what, info=v.info, tb=traceback.format_exc(limit=-4))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return dict(what=f'unexpected {type(e).__name__}: {short(e, 500)}', info={}, tb=traceback.format_exc(limit=-12))


CASE_LIMIT = 120  # seconds; cases take milliseconds


def worker(mod, seed, w, jobs, total, tier, fd, budget, progress):
    mon = Mon()
    viol = None
    t0 = time.time()
    n = 0
    status = 'ok'
    try:
        for i in range(w, total, jobs):
            if budget and time.time() - t0 > budget:
                status = 'budget'
                break
            struct.pack_into('q', progress, 8 * w, i)
            signal.alarm(CASE_LIMIT)
            t1 = time.time()
            v = run_case(mod, seed, i, mon, tier)
            signal.alarm(0)
            n += 1
            if time.time() - t1 > CASE_LIMIT / 10:
                print(f'slow case {i}: {time.time() - t1:.1f} s', flush=True)
            if v:
                viol = (i, v)
                break
            if n % 400 == 0:
                gc.collect()
    except Inconclusive as e:
        status = f'inconclusive: {e}'
    except BaseException as e:
        status = f'error: {type(e).__name__}: {e}'
        traceback.print_exc()
    with os.fdopen(fd, 'wb') as f:
        pickle.dump((mon.counts, mon.sigs, mon.samples, mon.known, mon.evaluations, viol, status), f)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run a single case index')
    a = ap.parse_args(argv)
    import oblate
    src = os.path.realpath(oblate.__file__)
    repo = os.environ.get('OBLMON_REPO', '/repo')
    if not src.startswith(os.path.realpath(repo) + os.sep):
        print(f'oblate was imported from {src}, not {repo}')
        return 2
    warnings.simplefilter('ignore')
    try:
        mod = importlib.import_module(f'oblmon.checks.{a.prop.lower()}')
    except ImportError:
        raise
    except Exception as e:
        if not any(os.path.realpath(fr.filename).startswith(os.path.realpath(repo) + os.sep) for fr in traceback.extract_tb(e.__traceback__)):
            raise
        # the library refused the check's own, valid definitions
        traceback.print_exc()
        print(f'VIOLATION property={a.prop.upper()} replay=-')
        return 1
    faulthandler.register(signal.SIGALRM, all_threads=True, chain=True)  # dumps the stacks, then the default action ends the process
    if a.replay:
        r = json.load(open(a.replay))
        return replay(mod, r)
    if a.one is not None:
        mon = Mon()
        v = run_case(mod, a.seed, a.one, mon, a.tier)
        print(dict(mon.counts))
        if v:
            print(v['what'])
            print(json.dumps(v['info'], indent=1))
            print(v['tb'])
        return 1 if v else 0
    return run(mod, a)


def replay(mod, r):
    """Run the recorded case alone, then after the cases that preceded it in its process."""
    seed, i, tier = r['seed'], r['case'], r['tier']
    if 'did not return' in r['what']:
        signal.alarm(CASE_LIMIT)
    v = run_case(mod, seed, i, Mon(), tier)
    if not v:
        print('not reproduced alone; replaying the worker history')
        for j in range(r['worker'], i + 1, r['jobs']):
            v = run_case(mod, seed, j, Mon(), tier)
            if v:
                break
    if v:
        print(v['what'])
        print(json.dumps(v['info'], indent=1))
        print(v['tb'])
        print(f'VIOLATION property={mod.ID} replay={r.get("path", "-")}')
        return 1
    print('not reproduced')
    return 0


def run(mod, a):
    t0 = time.time()
    total = a.cases or (mod.THOROUGH if a.tier == 'thorough' else mod.QUICK)
    jobs = a.jobs or min(8, os.cpu_count() or 1, total)
    budget = getattr(mod, 'BUDGET', 3000 if a.tier == 'thorough' else 600)
    sys.stdout.flush()
    procs = []
    progress = mmap.mmap(-1, 8 * jobs)
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(mod, a.seed, w, jobs, total, a.tier, wfd, budget, progress)
            except BaseException:
                traceback.print_exc()
                os._exit(8)
            os._exit(0)
        os.close(wfd)
        procs.append((pid, r))
    mon = Mon()
    viols, problems = [], []
    for w, (pid, r) in enumerate(procs):
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            i = struct.unpack_from('q', progress, 8 * w)[0]
            viols.append((i, w, dict(what=f'an operation did not return within {CASE_LIMIT} s', info={}, tb='(stacks above)')))
            continue
        if not data:
            problems.append(f'worker {w} ended without a result (status {st})')
            continue
        counts, sigs, samples, known, ev, viol, status = pickle.loads(data)
        mon.counts += counts
        mon.sigs |= sigs
        mon.samples += samples[:2]
        mon.known |= known
        mon.evaluations += ev
        if viol:
            viols.append((viol[0], w, viol[1]))
        if status != 'ok':
            problems.append(f'worker {w}: {status}')
    for name in getattr(mod, 'NEED', ()):
        if not mon.counts[name]:
            problems.append(f'monitor counter {name!r} is zero: nothing observed')
    if not mon.sigs:
        problems.append('no distinct observation')
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(property=mod.ID, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='exploration',
              coverage=dict(evaluations=mon.evaluations, distinct_nontrivial=len(mon.sigs), rule=mod.RULE,
                            samples=mon.samples[:6] or ['-'], observed=dict(sorted(mon.counts.items())), cases_planned=total, processes=jobs),
              assumptions=list(getattr(mod, 'ASSUMES', ['CPython 3.12 as installed; user callbacks are the ones generated by the workload'])),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    if problems:
        ev['coverage']['problems'] = problems
    with open(os.path.join(EVIDENCE, f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(mon.known):
        print(f'KNOWN-FINDING: property={mod.ID} {k}')
    print(f'{mod.ID} {a.tier} seed={a.seed}: {mon.evaluations} cases, {len(mon.sigs)} distinct, {ev["wall_s"]} s; '
          + ', '.join(f'{k}={v}' for k, v in sorted(mon.counts.items())))
    if viols:
        i, w, v = min(viols, key=lambda x: x[0])
        path = os.path.join(EVIDENCE, f'{mod.ID}.replay.json')
        with open(path, 'w') as f:
            json.dump(dict(property=mod.ID, seed=a.seed, tier=a.tier, case=i, worker=w, jobs=jobs, path=path, what=v['what'], info=v['info'], traceback=v['tb']), f, indent=1)
        print(v['what'])
        for k, x in v['info'].items():
            print(f'  {k}: {x[:1200]}')
        print(v['tb'])
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems))
        return 2
    return 0
