"""C19: controlled interleavings of threads (and tasks) versus the same operations alone."""
import asyncio
import contextvars
import os
import random
import sys
import threading
import time
import typing

import oblate

from .. import noise, texpr, values as V
from ..built import BuiltSpec, Watched
from ..core import Violation, check
from ..world import ERR_KINDS, World
from .c18 import ambient, digest_error, diff, label_ctx, label_schema, marked, strip

ID = 'C19'
QUICK, THOROUGH = 1100, 26000
RULE = ('2-4 threads or tasks, each with its own instances of shared random schemas, run 4-9 operations under a scheduler that decides at every user callback and every source line (or bytecode) of the '
        'library who runs next (random, round-robin, few chosen preemptions), freely with a 1 us switch interval, and as asyncio tasks; every outcome (values, errors with key/message/schema/field/'
        'context, ambient state at every callback) is compared with the same sequence run alone on separately built classes; distinct by interleaving')
NEED = ['line', 'opcode', 'callback', 'few', 'free', 'tasks', 'to_thread', 'switches', 'switches_in_operation', 'ops', 'errors', 'compared', 'other_inside', 'builtin_validators', 'duel', 'fresh', 'configured_class']
ASSUMES = ['under the controlled scheduler one thread runs at a time; switches happen at line or bytecode boundaries of library code and at user callbacks']

LIB = os.path.dirname(os.path.realpath(oblate.__file__)) + os.sep


class Sched:
    """Turn passing between threads."""
    def __init__(self, rng, n, mode, p, few=()):
        self.rng, self.mode, self.p, self.few = rng, mode, p, set(few)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.points = 0
        self.switches = 0
        self.trace = []
        self.progress = 0
        self.inside = [0] * n
        self.other_inside = 0
        self.overlap = 0

    def point(self, me, where):
        self.progress += 1
        self.points += 1
        if self.mode == 'round':
            go = True
        elif self.mode == 'few':
            go = self.points in self.few
        else:
            go = self.rng.random() < self.p
        if any(x for j, x in enumerate(self.inside) if j != me):
            self.other_inside += 1
        if not go or len(self.live) < 2:
            return
        others = [j for j in self.live if j != me]
        j = others[self.rng.randrange(len(others))] if self.mode != 'round' else min((x for x in others if x > me), default=others[0])
        self.switches += 1
        self.overlap += bool(self.inside[me])
        if len(self.trace) < 4000:
            self.trace.append((me, j, where))
        self.sem[j].release()
        self.sem[me].acquire()

    def start(self, me):
        self.sem[me].acquire()

    def done(self, me):
        self.progress += 1
        self.live.remove(me)
        if self.live:
            self.sem[self.live[self.rng.randrange(len(self.live))]].release()

    def watch(self, threads):
        """Start one thread; a thread blocked inside the library lets another one go."""
        self.sem[self.live[self.rng.randrange(len(self.live))]].release()
        last, t0 = -1, time.time()
        for t in threads:
            while t.is_alive():
                t.join(.5)
                if t.is_alive() and self.progress == last:
                    live = list(self.live)
                    if live:
                        self.sem[live[self.rng.randrange(len(live))]].release()
                last = self.progress
                if time.time() - t0 > 90:
                    raise Violation('threads using separate schemas did not finish', live=self.live)


def ie(rng):
    return {'ignore_extra': rng.random() < .5} if rng.random() < .35 else {}


class Slow(dict):
    """A mapping during whose reading others may run."""
    @classmethod
    def of(cls, d, j):
        return cls(d) if type(d) is dict and j % 3 == 1 else d

    def items(self):
        Watched.hook('items')
        for k in self:
            Watched.hook('item')
            yield k, dict.__getitem__(self, k)

    def __getitem__(self, k):
        Watched.hook('get')
        return dict.__getitem__(self, k)


class Job:
    """Shared classes and one operation sequence per thread."""
    def __init__(self, gseed, n):
        rng = random.Random(gseed)
        texpr.restart()
        for clear in getattr(typing, '_cleanups', ()):
            clear()
        w = self.w = World(rng)
        prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 3, 6], dump_rates=[0, 4, 9], p_fmt=.4, p_object=.35, p_keys=.4, vrate=rng.choice([0, 2, 5]), p_frozen=.08, p_config=.3, p_instr=.7,
                    nf=[1, 2, 3, 4])
        self.duel = rng.random() < .3       # every thread does the same kind of thing to the same fields, with values of its own
        # types met for the first time by several threads at once
        self.fresh = self.duel and rng.random() < .6
        if self.fresh:
            prof.update(kinds=['list', 'dict', 'set', 'union', 'literal', 'typeexpr', 'typeddict', 'list'], validators=.1, nf=[1, 1, 2, 3], p_inherit=.1, p_default=0)
        self.specs = [w.gen_schema(0, prof)] if self.fresh else [BuiltSpec(rng)] if rng.random() < .35 else [w.gen_schema(rng.choice([0, 1, 1, 2]), prof) for _ in range(rng.choice([1, 1, 2]))]
        self.seqs = [self.sequence(rng) for _ in range(n)]
        self.local = threading.local()
        w.recording = False
        w.on_step = self.step
        Watched.hook = self.watched

    def watched(self, what):
        """A value is being compared, measured or converted."""
        hook = getattr(self.local, 'watched', None)
        if hook is not None:
            hook(what)

    def sequence(self, rng):
        w = self.w
        ss = rng.choice(self.specs)
        if self.duel:
            good = ss.data(rng) if isinstance(ss, BuiltSpec) else w.gen_data(ss, rng, 0)
            bad = (lambda: ss.data(rng, 1, 1)) if isinstance(ss, BuiltSpec) else (lambda: w.gen_data(ss, rng, 3, p_opt=1))
            if self.fresh:
                bad1 = w.gen_data(ss, rng, 0, p_opt=1)
                bad1 = {**dict(bad1), **{f.lk: w.fail_value(f, rng)[0] for f in ss.all_fields()}}
                return ss, [('construct', (bad1, {})), ('construct', (bad(), {})), ('construct', (good, {})), ('update', (bad(), {})), ('dump', (bad(), {}))]
            return ss, [('construct', (good, {}))] + [(rng.choice(['construct', 'construct', 'update', 'dump']), (bad(), ie(rng))) for _ in range(6)]
        if isinstance(ss, BuiltSpec):
            return self.builtin(rng, ss)
        ops = [('construct', (w.gen_data(ss, rng, 0), {}))]
        for _ in range(rng.choice([3, 5, 8])):
            k = rng.choice(['construct', 'construct', 'update', 'update', 'assign', 'dump', 'copy', 'types', 'read', 'noise'])
            if k == 'construct':
                ops.append((k, (w.gen_data(ss, rng, rng.choice([0, 1, 2]), p_opt=.7), ie(rng))))
            elif k == 'update':
                ops.append((k, (w.gen_data(ss, rng, rng.choice([0, 1, 2]), p_opt=.5), ie(rng))))
            elif k == 'assign':
                f = rng.choice(ss.all_fields())
                ops.append((k, (f.name, w.fail_value(f, rng)[0] if rng.random() < .5 else w.ok_value(f, rng)[0])))
            elif k == 'types':
                ns = [texpr.gen(rng, rng.choice([1, 2])) for _ in range(rng.choice([1, 2]))]
                ops.append((k, ({f'k{j}': x.tp for j, x in enumerate(ns)}, {f'k{j}': (x.gen(rng) if rng.random() < .5 else x.near(rng)) for j, x in enumerate(ns)})))
            else:
                ops.append((k, rng.randrange(100)))
        return ss, ops

    def builtin(self, rng, ss):
        ops = [('construct', (ss.data(rng), {})) for _ in range(2)]
        for _ in range(rng.choice([3, 5, 8])):
            k = rng.choice(['construct', 'construct', 'update', 'update', 'assign', 'assign', 'dump', 'copy', 'read'])
            if k == 'assign':
                f = rng.choice(ss.all_fields())
                ops.append((k, (f.name, ss.value(f, rng))))
            else:
                ops.append((k, (ss.data(rng, 1), ie(rng)) if k in ('construct', 'update') else rng.randrange(100)))
        return ss, ops

    def step(self, kind, spec, schema, value, ctx):
        cb = getattr(self.local, 'cb', None)
        if cb is not None:
            cb(kind, spec, schema, value, ctx)

    def run(self, k, mon=None, hook=None, enter=None):
        """One thread's sequence; the digest does not depend on other threads."""
        ss, ops = self.seqs[k]
        out, log, known = [], [], {}

        def cb(kind, spec, schema, value, ctx):
            if hook is not None:
                hook(kind)
            a = ambient()
            if a != 'no ambient':
                a = (strip(V.canon(a.key)), 'own' if a.schema is schema else label_schema(a.schema, known), label_ctx(a.context) if a.context is not None else None)
            log.append((kind, getattr(spec, 'id', None) or getattr(spec, 'fid', None) or getattr(spec, 'name', ''), a, marked(kind, ctx)))
            if hook is not None:
                hook(kind)
        self.local.cb = cb
        self.local.watched = hook
        s = None
        try:
            for j, (op, x) in enumerate(ops):
                log.clear()
                if enter is not None:
                    enter(1)
                try:
                    if op == 'construct':
                        r = ss.cls(Slow.of(x[0], j), state=k, **x[1])
                        s = s or r
                        known[f's{j}'] = r
                    elif op == 'types':
                        r = oblate.validate_types(*x)
                    elif op == 'noise':
                        r = noise.run(x)
                    elif s is None:
                        r = 'no instance'
                    elif op == 'update':
                        r = s.update(Slow.of(x[0], j), **x[1])
                    elif op == 'assign':
                        r = setattr(s, *x)
                    elif op == 'dump':
                        r = s.dump()
                    elif op == 'copy':
                        r = s.copy()
                        if x % 2:
                            s = r
                    else:
                        r = [s.get_value_for(f.name, 'unset') for f in ss.all_fields()]
                    d = ('ok', strip(V.canon(r)))
                except Exception as e:
                    d = digest_error(e, known)
                    if mon is not None:
                        mon.count('errors')
                finally:
                    if enter is not None:
                        enter(0)
                out.append((f'{op} {j}', d, list(log)))
                if mon is not None:
                    mon.count('ops')
            out.append(('final', strip(V.canon(s))))
            out.append(('outside', 'no ambient' if ambient() == 'no ambient' else 'ambient'))
        finally:
            self.local.cb = None
            self.local.watched = None
        return out


def tracer(fn, opcodes):
    def local(frame, event, arg):
        if event == ('opcode' if opcodes else 'line'):
            fn((frame.f_code.co_name, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(LIB):
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None
    return glob


def controlled(job, n, rng, mon, mode):
    gran = rng.choice(['line', 'line', 'opcode', 'callback'] if not job.fresh else ['line', 'line', 'opcode'])
    points = rng.choice([200, 2000, 20000] if not job.fresh else [100, 300])
    few = [rng.randrange(1, points) for _ in range(rng.choice([1, 2, 4, 8]))]
    sc = Sched(rng, n, mode, rng.choice([.01, .05, .2, .5]) if gran != 'callback' else rng.choice([.3, .7, 1]), few)
    res = [None] * n
    base = contextvars.copy_context()

    def body(k):
        sc.start(k)
        try:
            if gran != 'callback':
                sys.settrace(tracer(lambda where: sc.point(k, where), gran == 'opcode'))

            def enter(x):
                sc.inside[k] = x
            res[k] = job.run(k, mon, (lambda kind: sc.point(k, kind)), enter)
        except BaseException as e:
            res[k] = e
        finally:
            sys.settrace(None)
            sc.done(k)
    threads = [threading.Thread(target=base.copy().run if rng.random() < .5 else (lambda f, k: f(k)), args=(body, k), daemon=True) for k in range(n)]
    for t in threads:
        t.start()
    sc.watch(threads)
    mon.count('few' if mode == 'few' else gran)
    mon.count('switches', sc.switches)
    mon.count('switches_in_operation', sc.overlap)
    mon.count('other_inside', sc.other_inside)
    mon.seen(mode, gran, sc.trace)
    return res, dict(mode=mode, granularity=gran, switches=sc.switches, schedule=str(sc.trace[:60]))


def free(job, n, rng, mon):
    res = [None] * n
    bar = threading.Barrier(n)
    old = sys.getswitchinterval()

    def body(k):
        bar.wait()
        try:
            res[k] = job.run(k, mon, lambda kind: time.sleep(0))
        except BaseException as e:
            res[k] = e
    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(100)
            check(not t.is_alive(), 'threads using separate schemas did not finish')
    finally:
        sys.setswitchinterval(old)
    mon.count('free')
    mon.seen('free', rng.random())
    return res, dict(mode='free')


def tasks(job, n, rng, mon):
    """Tasks; operations of several tasks alternate, some are spawned from inside callbacks."""
    res = [None] * n
    use_thread = rng.random() < .5

    async def one(k):
        await asyncio.sleep(0)
        try:
            if use_thread:
                res[k] = await asyncio.to_thread(job.run, k, mon, lambda kind: time.sleep(0))
            else:
                res[k] = job.run(k, mon)
        except BaseException as e:
            res[k] = e

    async def main():
        if rng.random() < .5:
            await asyncio.gather(*[one(k) for k in range(n)])
        else:
            # spawned from inside an operation of another task: the contexts start as copies of its context
            spawned = []

            def cb(kind, spec, schema, value, ctx):
                if len(spawned) < n and kind in ('pre', 'load', 'val', 'raw', 'post'):
                    spawned.append(asyncio.get_running_loop().create_task(one(len(spawned))))
            job.local.cb = cb
            for ss, ops in job.seqs:
                try:
                    ss.cls(ops[0][1][0])
                except oblate.OblateException:
                    pass
            job.local.cb = None
            inside.extend(range(len(spawned)))
            while len(spawned) < n:
                spawned.append(asyncio.create_task(one(len(spawned))))
            await asyncio.gather(*spawned)
    inside = []
    asyncio.run(main())
    mon.count('to_thread' if use_thread else 'tasks')
    mon.seen('tasks', use_thread, len(inside), rng.random())
    return res, dict(mode='tasks', spawned_inside=inside), inside


def plain(d):
    """Outcome without what a task inherits from the operation it was spawned in."""
    def errs(x):
        if isinstance(x, tuple) and len(x) == 7 and isinstance(x[0], int):
            return x[:4] + (x[4] if x[6] not in ('nested',) and False else None,) + x[5:]
        if isinstance(x, (tuple, list)):
            return type(x)(errs(y) for y in x)
        return x
    return [(x[0], errs(x[1])) for x in d if x[0] != 'outside']


class Configured(oblate.ValidationError):
    """The error class in force for a part of the cases."""


def case(rng, mon, i, tier):
    old = oblate.config.validation_error_cls
    if rng.random() < .35:
        oblate.config.validation_error_cls = Configured
        mon.count('configured_class')
    try:
        concurrent(rng, mon, i, tier)
    finally:
        oblate.config.validation_error_cls = old


def concurrent(rng, mon, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    gseed = rng.randrange(1 << 60)
    alone = Job(gseed, n)
    want = [contextvars.Context().run(alone.run, k) for k in range(n)]
    job = Job(gseed, n)
    if rng.random() < .3 and not job.fresh:
        for k in range(n):  # not the first use of the classes
            contextvars.Context().run(job.run, k)
    mon.count('builtin_validators', isinstance(job.specs[0], BuiltSpec))
    mon.count('duel', job.duel)
    mon.count('fresh', job.fresh)
    mode = rng.choice(['random', 'random', 'random', 'round', 'few', 'few', 'free', 'tasks'] if not job.fresh else ['random', 'random', 'few', 'few', 'round'])
    inside = ()
    if mode == 'free':
        res, info = free(job, n, rng, mon)
    elif mode == 'tasks':
        res, info, inside = tasks(job, n, rng, mon)
    else:
        res, info = controlled(job, n, rng, mon, mode)
    for k in range(n):
        info['schemas'] = repr(job.specs)
        info['sequence'] = job.seqs[k][1]
        if isinstance(res[k], BaseException):
            check(False, f'thread {k} ended with {type(res[k]).__name__}: {res[k]}', **info)
        check(res[k] is not None, 'harness: no result', **info)
        d = diff(plain(res[k]), plain(want[k])) if k in inside else diff(res[k], want[k])
        check(d is None, f'outcome under concurrency differs from the operation alone ("after history" = concurrent): {d}', thread=k, **info)
        mon.count('compared')
    mon.sample(f'{info["mode"]}: {n} threads, {[[o for o, _ in ops] for _, ops in job.seqs]}')
    texpr.release(None)
