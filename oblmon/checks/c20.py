"""C20: deep snapshots and mutation traps on every argument and on all definitions."""
import collections
import collections.abc

import oblate
from oblate import fields as F

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, Foreign, State, World, check_report, check_verdict, cmp_values

ID = 'C20'
QUICK, THOROUGH = 3500, 80000
RULE = ('random schemas and operations of every kind with arguments in plain and mutation-trapping containers (data at every nesting level, selections, types and values mappings, init_kwargs, states, '
        'defaults, value lists); ordered identity-level snapshots of arguments and of all public field attributes before and after, and the same inputs repeated; distinct by (operation, outcome, container, depth)')
NEED = ['arguments', 'definitions', 'trapped', 'nested_arguments', 'construct', 'update', 'assign', 'dump', 'copy', 'types', 'failed', 'interrupted', 'repeated', 'defaults', 'init_kwargs', 'states', 'field_ops', 'user_messages', 'extras']

TOUCHED = []
OURS = {}                # trapping containers made by the harness (copies of them are the library's)


def ours(x):
    OURS[id(x)] = x
    return x


def _trap(base, names):
    ns = {}
    for n in names:
        if hasattr(base, n):
            def m(self, *a, _n=n, **k):
                if id(self) in OURS:
                    TOUCHED.append((_n, type(self).__name__))
                return getattr(base, _n)(self, *a, **k)
            ns[n] = m
    return ns


TrapDict = type('TrapDict', (dict,), _trap(dict, ['__setitem__', '__delitem__', 'pop', 'popitem', 'clear', 'update', 'setdefault', '__ior__']))
TrapList = type('TrapList', (list,), _trap(list, ['__setitem__', '__delitem__', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__iadd__', '__imul__']))
TrapSet = type('TrapSet', (set,), _trap(set, ['add', 'remove', 'discard', 'pop', 'clear', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__ior__', '__iand__', '__isub__', '__ixor__']))


def trapped(v, rng, depth=0):
    """Replace plain containers by trapping ones (equal and of a subclass)."""
    if depth > 12:
        return v
    if type(v) is dict:
        out = ours(TrapDict())
        for k, x in v.items():
            dict.__setitem__(out, k, trapped(x, rng, depth + 1))
        return out
    if type(v) is list:
        out = ours(TrapList())
        for x in v:
            list.append(out, trapped(x, rng, depth + 1))
        return out
    if type(v) is set:
        out = ours(TrapSet())
        for x in v:
            set.add(out, x)
        return out
    return v


def snap(v, depth=0):
    """Structure with order and identities."""
    if depth > 40:
        return 'deep'
    if isinstance(v, (str, int, float, bytes, type(None), type)):
        return (type(v).__name__, repr(v) if not isinstance(v, int) else hex(v))
    if isinstance(v, oblate.Schema):
        spec = type(v).__monspec__
        return ('schema', id(v), [(f.name, id(x), snap(x, depth + 1)) for f in spec.all_fields() if (x := v.get_value_for(f.name, V.SENT)) is not V.SENT], id(v.context), snap(v.context.state, depth + 1))
    if isinstance(v, collections.abc.Mapping):
        return (type(v).__name__, id(v), [(snap(k, depth + 1), id(x), snap(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple, collections.deque)):
        return (type(v).__name__, id(v), [(id(x), snap(x, depth + 1)) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, id(v), sorted((repr(snap(x, depth + 1)) for x in v)))
    if isinstance(v, (V.Tagged, V.Vow, State)):
        return (type(v).__name__, id(v), [(k, snap(x, depth + 1)) for k, x in vars(v).items()])
    return (type(v).__name__, id(v))


def classes_of(ss, out=None):
    out = out if out is not None else {}
    if ss.name not in out:
        out[ss.name] = ss
        for f in ss.all_fields():
            if f.sub is not None:
                classes_of(f.sub, out)
        for p in ss.parents:
            classes_of(p, out)
    return out


ATTRS = ['none', 'required', 'frozen', 'extras', 'strict', 'true_values', 'false_values', 'init_kwargs', 'schema_cls', 'load_key', 'dump_key', 'name', 'schema', 'default', 'TRUE_VALUES', 'FALSE_VALUES']


def definitions(ss):
    out = {}
    for name, s in classes_of(ss).items():
        d = {}
        for n in dir(s.cls):
            x = getattr(s.cls, n, None)
            if isinstance(x, F.Any.__mro__[1]):
                d[n] = (id(x), [(a, snap(getattr(x, a)) if not callable(getattr(x, a)) else id(getattr(x, a))) for a in ATTRS if hasattr(x, a)], x.has_default(),
                        [id(v) for v in x.walk_validators(raw=True)], [id(v) for v in x.walk_validators(raw=False)])
        c = getattr(s.cls, 'Config', oblate.SchemaConfig)
        d['<config>'] = tuple(getattr(c, a, None) for a in ('add_repr', 'slotted', 'ignore_extra', 'frozen'))
        out[name] = d
    out['<global>'] = (oblate.config.validation_error_cls, oblate.config.warn_unsupported_types)
    return out


def call(fn):
    try:
        return fn(), None
    except BaseException as e:
        return None, e


class Guard:
    """Compares arguments and definitions around operations."""
    def __init__(self, ss, mon):
        self.ss, self.mon = ss, mon
        self.defs = definitions(ss)

    def op(self, name, fn, *args, **info):
        before = [snap(a) for a in args]
        TOUCHED.clear()
        r = fn()
        t = list(TOUCHED)
        after = [snap(a) for a in args]
        for k, (b, a) in enumerate(zip(before, after)):
            check(b == a, f'{name} changed an object the caller passed in (argument {k})', before=b, after=a, schema=repr(self.ss), args=args, **info)
        check(not t, f'{name} modified a container of the caller, if only for a moment', calls=t, schema=repr(self.ss), args=args, **info)
        d = definitions(self.ss)
        check(d == self.defs, f'{name} changed a definition', changed=[(c, n, d[c].get(n) if isinstance(d[c], dict) else d[c], self.defs[c].get(n) if isinstance(d[c], dict) else self.defs[c])
                                                                       for c in d for n in (d[c] if isinstance(d[c], dict) else ['']) if d[c] != self.defs[c]][:4],
              schema=repr(self.ss), args=args, **info)
        self.mon.count('arguments', len(args))
        self.mon.count('definitions')
        return r


def field_ops(rng, mon):
    """Defining, copying and changing fields leaves what was passed to the definitions alone."""
    def fn(schema, value, ctx):
        pass
    args = dict(validators=ours(TrapList(rng.choice([[fn], [oblate.validate.Range(5)], [fn, oblate.validate.Range(5)], []]))), extras=ours(TrapDict(k=[1])), tv=ours(TrapList(rng.choice([['on', 'x'], ['yes', 'on', 'x', 1], ['z', 'a', 'm', 'on'], ['on', 'on', 'on', 'a']]))), fv=ours(TrapList(rng.choice([['off'], ['off', 'x'], ['x', 'x', 'on'], ['zz', 'off', 'b', 0]]))),
                default=ours(TrapList([1])), ik=rng.choice([lambda: ours(TrapDict(state=ours(TrapList([1])))), lambda: ours(TrapDict(state=None)), lambda: {'state': None}, lambda: {'state': 0, 'ignore_extra': False}, lambda: {'ignore_extra': True}, lambda: {}])())
    sub = type(oblate.Schema)('Sub', (oblate.Schema,), {'n': F.Integer(required=False)})
    before = [snap(a) for a in args.values()]
    TOUCHED.clear()
    mk = [lambda: F.Boolean(true_values=args['tv'], false_values=args['fv'], strict=False, validators=args['validators'], extras=args['extras']),
          lambda: F.List(int, default=args['default'], validators=args['validators']),
          lambda: F.Object(sub, init_kwargs=args['ik'], extras=args['extras'], required=False),
          lambda: F.Any(validators=args['validators'], extras=args['extras'], default=args['default']),
          lambda: F.Any(validators=args['validators'], required=False)]
    fs = [rng.choice(mk)() for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([2, 4, 6])):
        f = rng.choice(fs)
        op = rng.randrange(7)
        if op == 0:
            f.add_validator(fn, raw=rng.random() < .5)
        elif op == 1:
            f.remove_validator(rng.choice(list(f.walk_validators()) or [fn]))
        elif op == 2:
            f.clear_validators(**rng.choice([{}, {'raw': True}, {'raw': False}]))
        elif op == 3:
            fs.append(f.copy())
        elif op == 4:
            list(f.walk_validators())
        else:
            cls = type(oblate.Schema)('Defined', (oblate.Schema,), {'x': f.copy(), 'check': oblate.validate.field('x', raw=op == 5)(lambda self, value, ctx: None)})
            for d in ({}, {'x': 'on'}, {'x': [1]}, {'x': {'n': 1}}):
                call(lambda: cls(d).update(d))
    check(not TOUCHED, 'a sequence or mapping passed to a field definition was modified', calls=list(TOUCHED), fields=[type(f).__name__ for f in fs])
    check([snap(a) for a in args.values()] == before, 'something passed to a field definition changed', args=args, before=before)
    mon.count('field_ops')


def messages(rng, mon):
    """Messages and states that user code attaches to its errors stay as they are."""
    mk = [lambda: ['b', 'a', 'c'], lambda: ours(TrapList(['z', 'y', 'x', 'y'])), lambda: {'k': ['m', 'l'], 'a': 1}, lambda: ours(TrapDict(q=['w', 'v'])), lambda: {'one'}, lambda: ours(TrapSet({'two', 'three'})),
          lambda: [], lambda: [['n2', 'n1'], {'d': []}, 'p', None, 3], lambda: ('t2', 't1'), lambda: [5, 'five', None, 5], lambda: V.ListSub(['s2', 's1', 's2']), lambda: V.Tagged('msg'), lambda: 'text']
    ms = [rng.choice(mk)() for _ in range(rng.choice([1, 2, 3, 5]))]
    sts = [rng.choice([None, lambda: ours(TrapList([2, 1])), lambda: {'s': [1]}, lambda: [3, 1, 2], lambda: ours(TrapDict(k=[])), lambda: {4, 1}]) for _ in ms]
    sts = [s and s() for s in sts]
    errs = []

    def fail(k, where):
        def fn(schema, value, ctx):
            if value in bads.get((k, where), ()):
                e = oblate.FieldError(ms[k], state=sts[k]) if sts[k] is not None or k % 2 else oblate.FieldError(ms[k])
                errs.append(e)
                raise e
        return fn
    bads = {}

    class Fld(F.Any):
        def value_load(self, value, ctx):
            if self.k is not None:
                fail(self.k, 'load')(ctx.schema, value, ctx)
            return value

        def value_dump(self, value, ctx):
            if self.k is not None:
                fail(self.k, 'dump')(ctx.schema, value, ctx)
            return value
        k = None
    ns = {'__module__': 'm'}
    for k in range(len(ms)):
        where = rng.choice(['load', 'dump', 'raw', 'val', 'val'])
        bads[k, where] = (1, 2)
        f = ns[f'f{k}'] = Fld(required=False)
        f.k = k
        if where in ('raw', 'val'):
            f.add_validator(fail(k, where), raw=where == 'raw')
            if rng.random() < .3:
                f.add_validator(fail(k, where), raw=where == 'raw')
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    O = type(oblate.Schema)('O', (oblate.Schema,), {'s': F.Object(S, required=False), '__module__': 'm'})
    before = [snap(x) for x in ms + sts]
    TOUCHED.clear()
    s = S({})
    for _ in range(rng.choice([1, 3])):
        d = {f'f{k}': rng.choice([0, 1, 2]) for k in range(len(ms))}
        ops = [lambda: S(d), lambda: O({'s': d}), lambda: s.update(d), lambda: setattr(s, 'f0', 1), lambda: s.dump(), lambda: O({}).update({'s': d}), lambda: O({'s': s}).dump()]
        _, e = call(rng.choice(ops))
        if isinstance(e, oblate.ValidationError):
            mon.count('user_messages')
            for _ in range(2):
                e.raw(), str(e), repr(e), e.errors
        after = [snap(x) for x in ms + sts]
        check(after == before, 'the message or state of an error raised by user code changed', before=before, after=after, messages=ms, states=sts)
        check(not TOUCHED, 'the message or state of an error raised by user code was modified', calls=list(TOUCHED), messages=ms, states=sts)
    check(all(any(x.message is m for m in ms) for x in errs), 'an error raised by user code has another message')


def case(rng, mon, i, tier):
    if i % 3 == 1:
        OURS.clear()
        messages(rng, mon)
    if i % 3 == 0:
        OURS.clear()
        field_ops(rng, mon)
    OURS.clear()
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 4], dump_rates=[0, 0, 6], p_fmt=.3, p_object=.35, p_keys=.4, vrate=rng.choice([0, 2, 5]), p_frozen=.1, p_default=.4, p_config=.3)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    allf = [f for s in classes_of(ss).values() for f in s.all_fields()]
    g = Guard(ss, mon)
    passed = [f.default[1] for f in allf if f.default] + [f.init_kwargs for f in allf if f.init_kwargs is not None] + [f.extras for f in allf if f.extras is not None]
    mon.count('extras', any(f.extras for f in allf))
    for f in allf:
        x = getattr(ss.cls, f.name, None)
        if f.real is x and f.extras:
            check(x.extras == {'k': [f.fid], 'metadata': None}, 'a field has other extras than given', got=x.extras, field=f.name, schema=repr(ss))
    mon.count('defaults', any(isinstance(f.default[1], (list, dict)) for f in allf if f.default))
    mon.count('init_kwargs', any(f.init_kwargs for f in allf))
    insts = []
    good = w.gen_data(ss, rng, 0)
    pool = [good] + [w.gen_data(ss, rng, rng.choice([0, 0, 1, 2, 3]), p_opt=.7) for _ in range(3)]
    if rng.random() < .6:
        pool = [trapped(d, rng) if type(d) is dict else d for d in pool]
        mon.count('trapped', sum(isinstance(d, TrapDict) for d in pool))
    states = [{'k': [1]}, ours(TrapDict()), [1], ours(TrapList([2])), None, ours(TrapList([1, None])), {'a': None, '': [], None: {}}, ours(TrapSet([1, None])), [[None], []], ours(TrapList([]))]
    outcomes = {}
    for step in range(rng.choice([4, 7, 10])):
        op = rng.choice(['construct', 'construct', 'update', 'update', 'assign', 'dump', 'copy', 'types'])
        if op in ('update', 'assign', 'dump', 'copy') and not insts:
            op = 'construct'
        left = [rng.randrange(5) if rng.random() < .15 else -1]

        def cb(kind, spec, schema, value, ctx):
            left[0] -= 1
            if left[0] == -1 and armed[0]:
                raise Foreign('x')
        armed = [left[0] >= 0]
        w.on_step = cb if armed[0] else None
        if armed[0]:
            mon.count('interrupted')
        v = None
        if op == 'construct':
            k = rng.randrange(len(pool))
            d = pool[k]
            st = rng.choice(states)
            kw = {'ignore_extra': rng.random() < .5} if rng.random() < .3 else {}
            mon.count('states', isinstance(st, (dict, list)))
            if armed[0]:
                x, e = g.op('construct', lambda: call(lambda: ss.cls(d, state=st, **kw)), d, st, kw, *passed)
                v = 'interrupted' if e is not None else 'ok'
            else:
                r = g.op('construct', lambda: w.construct(ss, d, state=st, **kw), d, st, kw, *passed)
                v = check_verdict(r)
                if v == 'errors':
                    check_report(r)
                    rep = V.canon(r.exc.raw())
                else:
                    cmp_values(r.real, r.mobj, r=r)
                    insts.append((r.real, r.mobj))
                    rep = V.canon(r.real)
                key = (k, tuple(kw.items()))
                if key in outcomes:
                    mon.count('repeated')
                    check(outcomes[key] == (v, rep), 'the same input gives another outcome the second time', first=outcomes[key], second=(v, rep), r=r)
                outcomes[key] = (v, rep)
            mon.count('nested_arguments', any(isinstance(x, (dict, collections.abc.Mapping)) for x in d.values()))
        elif op == 'update':
            real, mobj = rng.choice(insts)
            d = rng.choice(pool)
            if armed[0]:
                g.op('update', lambda: call(lambda: real.copy().update(d)), d, real, *passed)
                v = 'interrupted'
            else:
                others = [x for x, _ in insts if x is not real]
                r = g.op('update', lambda: w.update(real, mobj, d), d, *passed, *others)
                v = check_verdict(r)
                cmp_values(real, mobj, r=r)
        elif op == 'assign':
            real, mobj = rng.choice(insts)
            f = rng.choice(ss.all_fields())
            x = w.ok_value(f, rng)[0] if rng.random() < .6 else w.fail_value(f, rng)[0]
            if rng.random() < .5:
                x = trapped(x, rng)
            if armed[0]:
                g.op('assign', lambda: call(lambda: setattr(real.copy(), f.name, x)), x, real, *passed)
                v = 'interrupted'
            else:
                r = g.op('assign', lambda: w.assign(real, mobj, f, x), x, *passed)
                v = check_verdict(r)
                cmp_values(real, mobj, r=r)
        elif op == 'dump':
            real, mobj = rng.choice(insts)
            names = [f.name for f in ss.all_fields()]
            kw = rng.choice([{}, {'include': 1}, {'exclude': 1}])
            sel = rng.sample(names, rng.randrange(len(names) + 1))
            if rng.random() < .3:
                sel += rng.sample(['nope', 'zz', '', 'other', *names], rng.choice([1, 2, 4]))
            sel = rng.choice([lambda: sel, lambda: ours(TrapList(sel)), lambda: set(sel), lambda: dict.fromkeys(sel), lambda: ours(TrapSet(sel)), lambda: tuple(sel)])()
            kw = {k: sel for k in kw}
            if armed[0]:
                g.op('dump', lambda: call(lambda: real.dump(**kw)), sel, kw, real, *passed)
                v = 'interrupted'
            else:
                r = g.op('dump', lambda: w.dump(real, mobj, **kw), sel, kw, real, *passed)
                v = check_verdict(r)
        elif op == 'copy':
            real, mobj = rng.choice(insts)
            c = g.op('copy', lambda: real.copy(), real, *passed)
            v = 'ok'
        else:
            ns = [texpr.gen(rng, rng.choice([0, 1, 2])) if rng.random() < .7 else texpr.gen_td(rng, 1) for _ in range(rng.choice([1, 2, 3]))]
            types = {f'k{j}': n.tp for j, n in enumerate(ns)}
            vals = {f'k{j}': (n.gen(rng) if rng.random() < .5 else n.near(rng)) for j, n in enumerate(ns)}
            for k, x in vals.items():
                if isinstance(x, dict) and rng.random() < .4:
                    vals[k] = rng.choice([V.defaulting, V.Missing])(x)
            if rng.random() < .4:
                vals['extra'] = [1]
            if rng.random() < .3:
                vals.pop('k0')
            if rng.random() < .5:
                t2 = ours(TrapDict())
                for k, x in types.items():
                    dict.__setitem__(t2, k, x)
                types, vals = t2, trapped(vals, rng)
            w.on_step = None
            kw = {k: rng.random() < .5 for k in ('ignore_extra', 'ignore_missing') if rng.random() < .5}
            x, e = g.op('validate_types', lambda: call(lambda: oblate.validate_types(types, vals, **kw)), list(types.items()), types, vals)
            check(e is None or isinstance(e, oblate.TypeValidationError), 'validate_types raised something else', exc=repr(e))
            v = 'errors' if e else 'ok'
            x, e2 = g.op('validate_types', lambda: call(lambda: oblate.validate_types(types, vals, **kw)), list(types.items()), types, vals)
            check((e is None) == (e2 is None) and (e is None or V.canon(e.errors) == V.canon(e2.errors)), 'validate_types gives another outcome the second time', first=e, second=e2)
            mon.count('repeated')
        w.on_step = None
        mon.count(op)
        mon.count('failed', v == 'errors')
        mon.seen(op, v, type(pool[0]).__name__, len(ss.all_fields()), len(classes_of(ss)), len(insts) > 1)
    mon.sample(f'{ss!r} with {pool!r}')
    texpr.release(None)
