"""C18: outcome of operations after a history versus a fresh process; nothing kept alive."""
import contextvars
import gc
import os
import pickle
import random
import re
import struct
import typing
import weakref

import oblate
from oblate import fields as F

from .. import noise, texpr, values as V
from ..built import BuiltSpec
from ..core import Violation, check
from ..world import ERR_KINDS, Foreign, ForeignBase, World, norm

ID = 'C18'
QUICK, THOROUGH = 3000, 60000
RULE = ('random schemas; a history of 1-12 operations on the same and other schemas (succeeding, failing, re-entrant, interrupted at random callbacks), then a probe sequence whose complete outcome '
        '(values, errors with key/message/schema/field/context/state, callback events with what an error created there would carry) is compared with the same sequence in a process forked '
        'before any operation ran and in an empty context; weak references to schemas and values die after use; distinct by (history kinds, probe outcome)')
NEED = ['fresh_process', 'fresh_context', 'history_ops', 'interrupted', 'probe_errors', 'probe_ok', 'ambient_probes', 'released', 'released_after_interrupt', 'released_failed', 'reused_address', 'builtin_validators', 'released_builtin']
ASSUMES = ['a process forked right after import stands for a fresh process', 'objects reachable only through cycles count as released once the cycle collector has run',
           "the standard typing module's own caches are emptied before a comparison"]

HEX = re.compile(r'0x[0-9a-f]{6,}')


def strip(x):
    """Drop object identities from a snapshot."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[1] == 'id':
            return x[:2]
        return tuple(strip(y) for y in x)
    if isinstance(x, list):
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, str):
        return HEX.sub('0x', x)
    return x


def label_schema(s, known):
    for name, x in known.items():
        if s is x:
            return name
    return type(s).__name__


def label_ctx(c):
    if c is None:
        return None
    return (type(c).__name__, c.field.name, type(c.schema).__name__, strip(V.canon(c.value)), strip(V.canon(c.state)))


def digest_error(e, known):
    if isinstance(e, oblate.ValidationError):
        out = []

        def walk(fe, depth):
            m = fe.message
            nested = isinstance(m, dict) and m and all(isinstance(x, list) and all(isinstance(y, oblate.FieldError) for y in x) for x in m.values())
            out.append((depth, strip(V.canon(fe.key)), label_schema(fe.schema, known), fe.field.name if fe.field is not None else None, label_ctx(fe.context),
                        getattr(fe.state, 'tag', strip(V.canon(fe.state))), 'nested' if nested else strip(repr(norm(m)))))
            if nested:
                for x in m.values():
                    for y in x:
                        walk(y, depth + 1)
        for fe in e.errors:
            walk(fe, 0)
        return (type(e).__name__, label_schema(e.schema, known), out, strip(repr(e.raw())), strip(str(e)))
    if isinstance(e, oblate.FrozenError):
        return ('FrozenError', e.entity.name if isinstance(e.entity, F.Any.__mro__[1]) else label_schema(e.entity, known))
    return (type(e).__name__, strip(str(e)))


def ambient():
    """What an error created here would carry."""
    try:
        e = oblate.FieldError('probe')
    except LookupError:
        return 'no ambient'
    return e


def accepted(cls, data):
    try:
        cls(data)
    except Exception:       # also validators given values of other kinds
        return False
    return True


def marked(kind, ctx):
    """What user code finds in the dictionaries of a context made for it alone, where it leaves a mark."""
    if kind != 'fmt':
        return None
    n = ctx.metadata.get('oblmon', 0)
    ctx.metadata['oblmon'] = n + 1
    return n, sorted(map(str, ctx.metadata))


class Probe:
    """One generated schema with a deterministic probe sequence."""
    def __init__(self, gseed):
        rng = random.Random(gseed)
        texpr.restart()
        for clear in typing._cleanups:
            clear()  # typing gives Set[Union[int, str]] for an equal Set[Union[str, int]] made earlier
        w = self.w = World(rng)
        prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 3, 6], dump_rates=[0, 4, 9], p_fmt=.4, p_object=.35, p_keys=.5, vrate=rng.choice([0, 2, 5]), p_frozen=.1, p_config=.3, p_instr=.7)
        if rng.random() < .25:
            self.builtin(rng)
            return
        self.ss = ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
        self.good = w.gen_data(ss, rng, 0)
        self.datas = [w.gen_data(ss, rng, rng.choice([0, 1, 1, 2, 3]), p_opt=rng.choice([.4, .8])) for _ in range(3)]
        self.upds = [w.gen_data(ss, rng, rng.choice([0, 1, 2]), p_opt=.5) for _ in range(2)]
        self.sets = []
        for _ in range(3):
            f = rng.choice(ss.all_fields())
            self.sets.append((f.name, w.fail_value(f, rng)[0] if rng.random() < .6 else w.ok_value(f, rng)[0]))
        self.hist_datas = [w.gen_data(ss, rng, rng.choice([0, 1, 2]), p_opt=.6) for _ in range(3)]

    def builtin(self, rng):
        self.ss = ss = BuiltSpec(rng)
        self.good = next((d for d in (ss.data(rng) for _ in range(8)) if accepted(ss.cls, d)), {})
        self.datas = [ss.data(rng, 1) for _ in range(3)]
        self.upds = [ss.data(rng, 1, .5) for _ in range(2)]
        self.sets = [(f.name, ss.value(f, rng)) for f in rng.choices(ss.all_fields(), k=3)]
        self.hist_datas = [ss.data(rng, 1) for _ in range(3)]

    def run(self, mon=None):
        w, ss = self.w, self.ss
        out = []
        known = {}
        log = []

        def step(kind, spec, schema, value, ctx):
            a = ambient()
            if a != 'no ambient':
                a = (strip(V.canon(a.key)), 'own' if a.schema is schema else label_schema(a.schema, known), label_ctx(a.context) if kind not in ('default', 'pre', 'post') or a.context is not None else None)
            log.append((kind, getattr(spec, 'id', None) or getattr(spec, 'fid', None) or getattr(spec, 'name', ''), a, marked(kind, ctx)))
        w.on_step = step
        w.recording = False

        def do(name, fn, keep=None):
            log.clear()
            try:
                x = fn()
            except BaseException as e:
                d = digest_error(e, known)
                x = None
                if mon is not None:
                    mon.count('probe_errors')
            else:
                d = ('ok', strip(V.canon(x)))
                if keep:
                    known[keep] = x
                if mon is not None:
                    mon.count('probe_ok')
            if mon is not None:
                mon.count('ambient_probes', len(log))
            out.append((name, d, list(log)))
            return x
        try:
            out.append(('outside', repr(ambient()) if ambient() == 'no ambient' else 'ambient'))
            for k, d in enumerate(self.datas):
                do(f'construct {k}', lambda: ss.cls(d), f's{k}')
            s = do('construct good', lambda: ss.cls(self.good, state={'q': 1}), 'good')
            if s is not None:
                do('dump', lambda: s.dump())
                for k, d in enumerate(self.upds):
                    do(f'update {k}', lambda: s.update(d))
                for n, v in self.sets:
                    do(f'assign {n}', lambda: setattr(s, n, v))
                c = do('copy', lambda: s.copy(), 'copy')
                do('dump copy', lambda: c.dump(include=[f.name for f in ss.all_fields()][:2]))
                do('read', lambda: [c.get_value_for(f.name) for f in ss.all_fields()])
                out.append(('final', strip(V.canon(s)), s.context.is_initialized(), strip(V.canon(s.context.state))))
            do('types', lambda: oblate.validate_types({'a': int, 'b': list[str], 'c': dict[str, int]}, {'a': 1, 'b': ['x', 2], 'd': 4}))
            do('types ok', lambda: oblate.validate_types({'a': int}, {'a': 1}))
            out.append(('outside', repr(ambient()) if ambient() == 'no ambient' else 'ambient'))
        finally:
            w.on_step = None
        return out


# -------------------------------------------------------------------- fresh processes
_server = None


def _serve(rfd, wfd):
    """Fork one child per request; the children have run no operation before."""
    rf = os.fdopen(rfd, 'rb')
    while True:
        head = rf.read(4)
        if len(head) < 4:
            os._exit(0)
        req = pickle.loads(rf.read(struct.unpack('I', head)[0]))
        pid = os.fork()
        if pid == 0:
            try:
                data = pickle.dumps(Probe(req).run())
            except BaseException as e:
                import traceback
                data = pickle.dumps(('failed', traceback.format_exc()))
            os.write(wfd, struct.pack('I', len(data)))
            while data:
                data = data[os.write(wfd, data):]
            os._exit(0)
        os.waitpid(pid, 0)


def fresh(gseed):
    global _server
    if _server is None or _server[0] != os.getpid():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            keep = {0, 1, 2, r1, w2}
            for fd in map(int, os.listdir('/proc/self/fd')):
                if fd not in keep:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            _serve(r1, w2)
        os.close(r1)
        os.close(w2)
        _server = (os.getpid(), os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb'))
    _, out, inp = _server
    req = pickle.dumps(gseed)
    out.write(struct.pack('I', len(req)) + req)
    out.flush()
    n = struct.unpack('I', inp.read(4))[0]
    return pickle.loads(inp.read(n))


# -------------------------------------------------------------------- histories
def history(p, rng, mon):
    w, ss = p.w, p.ss
    kinds = []
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        k = rng.choice(['noise', 'noise', 'construct', 'update', 'assign', 'dump', 'copy', 'construct', 'update'])
        cut = rng.randrange(6) if rng.random() < .5 else -1
        exc = rng.choice([Foreign, ForeignBase, KeyboardInterrupt, RecursionError, ValueError, GeneratorExit, oblate.OblateException])('history')
        left = [cut]

        def step(kind, spec, schema, value, ctx):
            marked(kind, ctx)
            if left[0] == 0:
                left[0] -= 1
                mon.count('interrupted')
                raise exc
            left[0] -= 1
            if rng.random() < .15:
                noise.run(rng.randrange(100))
        w.on_step = step
        try:
            d = rng.choice(p.hist_datas)
            if k == 'noise':
                noise.run(rng.randrange(100))
            elif k == 'construct':
                ss.cls(d)
            else:
                w.on_step = None
                s = ss.cls(p.good)
                w.on_step = step
                if k == 'update':
                    s.update(d)
                elif k == 'assign':
                    n, v = rng.choice(p.sets)
                    setattr(s, n, v)
                elif k == 'dump':
                    s.dump()
                else:
                    s.copy().update(d)
        except BaseException:
            pass
        finally:
            w.on_step = None
        mon.count('history_ops')
        kinds.append(k + ('!' if left[0] < 0 <= cut else ''))
    return kinds


def diff(a, b):
    if len(a) != len(b):
        return f'{[x[0] for x in a]} versus {[x[0] for x in b]}'
    for x, y in zip(a, b):
        if x != y:
            for u, v in zip(x, y):
                if u != v:
                    if isinstance(u, list) and isinstance(v, list):
                        z = [(i, j) for i, j in zip(u, v) if i != j][:2] or f'{len(u)} versus {len(v)} events'
                        return f'{x[0]}: after history versus fresh: {z!r}'
                    return f'{x[0]}: after history {u!r} fresh {v!r}'
    return None


# -------------------------------------------------------------------- retention
class Token:
    """A value whose lifetime is observed."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Token({self.n})'


# what an overriding format_error gives
TEXTS = [lambda ctx: 'no!', lambda ctx: 'Refused.', lambda ctx: '', lambda ctx: f'{ctx.error_code}', lambda ctx: None, lambda ctx: oblate.FieldError('m'), lambda ctx: oblate.FieldError(['m', 'n'], state=ctx.get_value()),
         lambda ctx: oblate.FieldError(f'bad {type(ctx.get_value()).__name__}'), lambda ctx: V.StrSub('sub'), lambda ctx: repr(ctx.metadata)]


def retention(rng, mon):
    """Values and schemas are released after every kind of operation."""
    boom = [False]

    class Fld(F.Any):
        def value_load(self, value, ctx):
            if boom[0] == 'load':
                raise Foreign('x')
            if getattr(value, 'n', 0) == 13:
                raise ValueError('bad')
            return value

        def value_dump(self, value, ctx):
            if boom[0] == 'dump':
                raise Foreign('x')
            if getattr(value, 'n', 0) == 7:
                raise ValueError('bad')
            return value

    def val(schema, value, ctx):
        if boom[0] == 'val':
            raise Foreign('x')
        if getattr(value, 'n', 0) == 14:
            raise rng.choice([ValueError('bad'), oblate.FieldError(value), oblate.FieldError('m', state=value)])

    class Told(Fld):
        def format_error(self, code, ctx):
            return rng.choice(TEXTS)(ctx)

    cfg = type('Config', (oblate.SchemaConfig,), {'slotted': False})
    if rng.random() < .5:
        Fld = Told
    In = type(oblate.Schema)('In', (oblate.Schema,), {'x': Fld(validators=[val], required=False), 'Config': cfg, '__module__': 'm'})
    fx = Fld(required=False)
    fx.add_validator(val, raw=True)
    Out = type(oblate.Schema)('Out', (oblate.Schema,), {'a': fx, 'b': Fld(validators=[val], required=False), 'o': F.Object(In, required=False), 't': F.TypeExpr(list[Token], required=False),
                                                       'e': F.List(required=False), 'Config': cfg, '__module__': 'm'})
    refs = []
    names = ['a', 'b', 'o', 't', 'e', 'zz']

    def tok():
        t = Token(rng.choice([1, 2, 7, 13, 14]))
        refs.append(weakref.ref(t))
        return t

    def data():
        d = {}
        for k in rng.sample(['a', 'b', 'o', 't', 'e', 'zz'], rng.choice([1, 2, 4, 6])):
            d[k] = {'o': lambda: {'x': tok(), **({'q': tok()} if rng.random() < .3 else {})}, 't': lambda: [tok(), tok()] if rng.random() < .7 else [tok(), 1], 'e': lambda: [tok()]}.get(k, tok)()
        return d

    def go():
        kinds = []
        s = Out({'a': Token(0)})
        refs.append(weakref.ref(s))
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.choice(['construct', 'update', 'assign', 'dump', 'copy', 'types', 'fail_type', 'read', 'read'])
            boom[0] = rng.choice([False, False, 'load', 'val', 'dump'])
            kinds.append((k, boom[0]))
            try:
                if k == 'construct':
                    refs.append(weakref.ref(Out(data(), state=tok())))
                elif k == 'update':
                    s.update(data())
                elif k == 'assign':
                    s.b = tok()
                elif k == 'dump':
                    s.dump()
                elif k == 'copy':
                    c = s.copy()
                    refs.append(weakref.ref(c))
                    c.update(data())
                    c.dump()
                elif k == 'read':
                    for n in names:
                        hasattr(s, n), getattr(s, n, None), s.get_value_for(n, tok()) if n != 'zz' else None
                        try:
                            s.get_value_for(n)
                        except RuntimeError:
                            pass
                        except AttributeError as e:
                            repr(e), str(e), e.schema
                    repr(s), str(s), s == s.copy(), hash(s), s.context.state, s.context.config
                elif k == 'types':
                    oblate.validate_types({'a': int, 'b': list[Token], 'c': dict[str, Token]}, {'a': tok(), 'b': [tok(), 5], 'c': {'z': tok()}, 'd': tok()})
                else:
                    Out(tok())
            except (oblate.OblateException, TypeError):
                mon.count('released_failed')
            except Foreign:
                mon.count('released_after_interrupt')
        return kinds
    kinds = go()
    alive = [r for r in refs if r() is not None]
    if alive:
        gc.collect()
        alive = [r() for r in refs if r() is not None]
    check(not alive, 'the library keeps schemas or values alive after operations ended', alive=alive, operations=kinds, held_by=[type(x).__name__ for a in alive[:1] for x in gc.get_referrers(a)][:8])
    mon.count('released', len(refs))
    mon.seen('retention', tuple(kinds))


class TokStr(str):
    pass


class TokFloat(float):
    pass


class TokList(list):
    pass


class TokDict(dict):
    pass


class TokSet(set):
    pass


class TokTD(typing.TypedDict, total=False):
    a: int
    b: typing.List[str]


def builtin_retention(rng, mon):
    """Values given to built-in fields and validators, accepted or not, are released."""
    VD = oblate.validate
    In = type(oblate.Schema)('In', (oblate.Schema,), {'x': F.Any(required=False), 'n': F.Integer(required=False), '__module__': 'm', 'Config': type('Config', (oblate.SchemaConfig,), {'slotted': False})})
    mk = [(F.String, (), {}), (F.String, (), {'strict': False}), (F.Integer, (), {}), (F.Integer, (), {'strict': False}), (F.Float, (), {}), (F.Float, (), {'strict': False}), (F.Boolean, (), {}), (F.Boolean, (), {'strict': False}),
          (F.List, (), {}), (F.List, (str,), {}), (F.Dict, (), {}), (F.Dict, (str, int), {}), (F.Set, (), {}), (F.Set, (int,), {}), (F.Literal, ('a', 1), {}), (F.Union, (str, list), {}),
          (F.TypeExpr, (typing.Union[typing.List[str], typing.Dict[str, int], float],), {}), (F.TypedDict, (TokTD,), {}), (F.Object, (In,), {}), (F.Object, (In,), {'init_kwargs': {'ignore_extra': True}}), (F.Any, (), {}), (F.Any, (), {})]
    vs = [lambda: VD.Range(3), lambda: VD.Range(-2, 2), lambda: VD.Length(min=1), lambda: VD.Length(max=2), lambda: VD.Length(exact=1), lambda: VD.Regex('[a-z]+'), lambda: VD.Regex('a.*', search=True), lambda: VD.Regex('a', full_match=True),
          lambda: VD.Regex('a', fail_message='{value} is bad'), lambda: VD.Exclude('a', 1.0, []), lambda: VD.Or(VD.Length(min=2), VD.Exclude('a')), lambda: VD.Or(VD.Exclude('a', 'b'), VD.Exclude([])), lambda: VD.Range.from_standard(range(0, 9, 2))]
    ns = {'__module__': 'm', 'Config': In.Config if hasattr(In, 'Config') else type('Config', (oblate.SchemaConfig,), {'slotted': False})}
    names = [f'f{k}' for k in range(rng.choice([2, 4, 7]))]
    for n in names:
        cls, args, kw = rng.choice(mk)
        if rng.random() < .5:
            text = rng.choice(TEXTS)
            cls = type(cls)(cls.__name__, (cls,), {'format_error': lambda self, code, ctx, text=text: text(ctx)})
        f = ns[n] = cls(*args, required=False, **kw, **({'none': True} if rng.random() < .3 else {}), **({'extras': {'k': 1}} if rng.random() < .3 else {}))
        for _ in range(rng.choice([0, 0, 1, 2])):
            f.add_validator(rng.choice(vs)(), raw=rng.random() < .3)
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    refs, kinds = [], []

    def keep(v):
        refs.append(weakref.ref(v))
        return v

    def tok(depth=1):
        k = rng.randrange(8)
        if k < 3:
            return keep(TokStr(rng.choice(['a', '', '12', 'x' * 99, 'True', 'ab', '1.5'])))
        if k == 3:
            return keep(TokFloat(rng.choice([1.0, 2.5, -9.0])))
        if k == 4:
            return keep(TokList([tok(0) for _ in range(rng.choice([0, 1, 2]))] if depth else []))
        if k == 5:
            return keep(TokDict({TokStr(x): tok(0) for x in rng.sample(['x', 'n', 'a', 'b', 'zz'], rng.choice([0, 1, 3]))} if depth else {}))
        if k == 6:
            return keep(TokSet([1, 'a'][:rng.randrange(3)]))
        return keep(Token(1))

    def data():
        d = {}
        for n in rng.sample(names, rng.randrange(1, len(names) + 1)):
            d[keep(TokStr(n)) if rng.random() < .3 else n] = tok()
        if rng.random() < .2:
            d[keep(TokStr('unknown'))] = tok()
        return keep(TokDict(d)) if rng.random() < .5 else d

    def go():
        s = S({})
        keep(s)
        for _ in range(rng.choice([1, 2, 4, 8])):
            k = rng.choice(['construct', 'update', 'assign', 'assign', 'dump', 'copy', 'types'])
            kinds.append(k)
            try:
                if k == 'construct':
                    keep(S(data()))
                elif k == 'update':
                    s.update(data())
                elif k == 'assign':
                    setattr(s, rng.choice(names), tok())
                elif k == 'dump':
                    s.dump(include=[keep(TokStr(n)) for n in names])
                elif k == 'copy':
                    keep(s.copy()).update(data())
                else:
                    oblate.validate_types(keep(TokDict({keep(TokStr('a')): rng.choice([str, list, typing.List[str], typing.Dict[str, float], TokTD, typing.Literal['a'], In])})), {'a': tok()})
            except oblate.OblateException:
                mon.count('released_failed')
            except (TypeError, ValueError, AttributeError):
                mon.count('unfit')      # validators given values of other kinds
    go()
    alive = [r for r in refs if r() is not None]
    if alive:
        gc.collect()
        alive = [r() for r in refs if r() is not None]
    check(not alive, 'the library keeps schemas or values given to built-in fields and validators alive', alive=[(type(x).__name__, repr(x)[:60]) for x in alive[:5]], operations=kinds, fields=[type(ns[n]).__name__ for n in names],
          validators=[type(v).__name__ for n in names for v in ns[n].walk_validators()], held_by=[type(x).__name__ for a in alive[:1] for x in gc.get_referrers(a)][:8])
    mon.count('released_builtin', len(refs))
    mon.seen('builtin retention', tuple(kinds), tuple(type(ns[n]).__name__ for n in names))


def reuse(rng, mon):
    """Verdicts on many short-lived values, created where earlier ones were."""
    n = texpr.gen(rng, rng.choice([1, 2]))
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': F.TypeExpr(n.tp, none=True), '__module__': 'm'})
    ids = set()
    for k in range(40):
        v = texpr.value_for(n, rng, rng.random() < .5)
        want = n.match(v)
        if v is not None:
            mon.count('reused_address', id(v) in ids)
            ids.add(id(v))
        info = dict(expr=n.desc(), value=repr(v)[:800], round=k)
        try:
            if k % 2:
                oblate.validate_types({'v': n.tp}, {'v': v})
            else:
                S({'v': v})
            got = True
        except (oblate.ValidationError, oblate.TypeValidationError):
            got = False
        check(got == want or v is None, 'the verdict on a value differs from the one a fresh process gives', expected=want, **info)
        del v
    texpr.release(n)
    mon.count('reuse')
    mon.seen('reuse', n.desc()[:60])


_frozen = False


def case(rng, mon, i, tier):
    global _frozen
    gseed = rng.randrange(1 << 60)
    want = fresh(gseed)
    if not _frozen:
        gc.collect()
        gc.freeze()
        _frozen = True
    if want and want[0] == 'failed':
        check(False, 'harness: the fresh process failed', tb=want[1])
    if i % 4 == 0:
        reuse(rng, mon)
    p = Probe(gseed)
    kinds = history(p, rng, mon)
    got = p.run(mon)
    info = dict(schema=repr(p.ss), history=kinds, data=p.datas)
    d = diff(got, want)
    check(d is None, f'outcome after a history differs from a fresh process: {d}', **info)
    mon.count('builtin_validators', isinstance(p.ss, BuiltSpec))
    mon.count('fresh_process')
    got = contextvars.Context().run(p.run)
    d = diff(got, want)
    check(d is None, f'outcome in an empty context after a history differs from a fresh process: {d}', **info)
    mon.count('fresh_context')
    mon.seen(tuple(kinds), tuple((x[0], x[1][0]) for x in got if len(x) > 2 and isinstance(x[1], tuple)))
    mon.sample(f'{p.ss!r} after {kinds}: {[(x[0], x[1][0] if isinstance(x[1], tuple) else x[1]) for x in got]}')
    del p, got, want, d, info
    if i % 3 == 0:
        retention(rng, mon)
    if i % 3 == 1:
        builtin_retention(rng, mon)
    texpr.release(None)
