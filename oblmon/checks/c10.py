"""C10: type validation by every field and validate_types against the reference matcher."""
import gc
import warnings

import oblate
from oblate import fields as F

from .. import classzoo, texpr, values as V
from ..core import check

ID = 'C10'
QUICK, THOROUGH = 9700, 220000
RULE = ('every pair of 22 constructors and 34 inner expressions with values built from a pool of 38 (systematic part), then random type expressions to depth 3 (4 in the thorough tier), matching and nearly matching values (one defect at any position, other container types, lengths '
        'off by one), through validate_types and all type-validating fields in construction, update and assignment; distinct by (expression shape, verdict, entry points)')
NEED = ['accept', 'reject', 'validate_types', 'typeexpr', 'union', 'literal', 'list', 'set', 'dict', 'typeddict', 'update', 'assign', 'large', 'typed_dict_inside', 'systematic', 'systematic_accept', 'systematic_reject', 'zoo_accept', 'zoo_reject']


def shape(n, d=0):
    k = type(n).__name__
    if d > 2:
        return k
    if isinstance(n, texpr.Cls):
        return n.c.__name__
    if isinstance(n, texpr.UnionN):
        return (k, tuple(sorted({str(shape(m, d + 1)) for m in n.members})))
    if isinstance(n, texpr.TupN):
        return (k, n.mode, tuple(shape(e, d + 1) for e in n.elems))
    if isinstance(n, texpr.DictN):
        return (k, n.mapping, n.k and shape(n.k, d + 1), n.v and shape(n.v, d + 1))
    if hasattr(n, 'elem'):
        return (k, n.elem and shape(n.elem, d + 1))
    return k


def field_for(n, rng):
    """(name, field) pairs validating the node."""
    out = [('typeexpr', lambda **kw: F.TypeExpr(n.tp, **kw))]
    if isinstance(n, texpr.UnionN):
        out.append(('union', lambda **kw: F.Union(*[m.tp for m in n.members], **kw)))
    if isinstance(n, texpr.Lit):
        out.append(('literal', lambda **kw: F.Literal(*n.vals, **kw)))
    if isinstance(n, texpr.ListN):
        out.append(('list', lambda **kw: F.List(n.elem.tp, **kw) if n.elem else F.List(**kw)))
    if isinstance(n, texpr.SetN):
        out.append(('set', lambda **kw: F.Set(n.elem.tp, **kw) if n.elem else F.Set(**kw)))
    if isinstance(n, texpr.DictN) and not n.mapping:
        out.append(('dict', lambda **kw: F.Dict(n.k.tp, n.v.tp, **kw) if n.k else F.Dict(**kw)))
    if isinstance(n, texpr.TD):
        out.append(('typeddict', lambda **kw: F.TypedDict(n.tp, **kw)))
    return out


def enlarge(n, v, rng):
    """Many elements, at most one of them of another type."""
    k = rng.choice([9, 17, 33, 65, 130, 300])
    odd = [V.atom(rng)] * (rng.random() < .6)
    elem = getattr(n, 'elem', None)
    if isinstance(n, texpr.TupN):
        elem = n.elems[0] if n.mode == 'var' else None
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple) and v:
        out = [elem.gen(rng) if elem else v[j % len(v)] for j in range(k)] + odd
        rng.shuffle(out)
        return type(v)(out)
    ints = isinstance(getattr(n, 'elem', None) or getattr(n, 'k', None), texpr.Cls) and (getattr(n, 'elem', None) or n.k).c
    mk = {int: lambda j: j, str: lambda j: f's{j}', float: lambda j: j + .5, V.Vow: V.Vow, bytes: lambda j: b'%d' % j}.get(ints)
    if type(v) in (set, frozenset) and mk:
        out = [mk(j) for j in range(k)] + odd
        rng.shuffle(out)
        return type(v)(out)
    if type(v) is dict and v and mk and isinstance(n, texpr.DictN):
        out = [(mk(j), n.v.gen(rng)) for j in range(k)]
        if odd:
            out.append((odd[0], n.v.gen(rng)) if rng.random() < .5 else (mk(k), odd[0]))
        rng.shuffle(out)
        return dict(out)


def messages_ok(ms):
    return isinstance(ms, list) and ms and all(isinstance(m, str) and m for m in ms)


def _sub(k):
    T = texpr
    return [lambda r: T.Cls(int), lambda r: T.Cls(str), lambda r: T.Cls(float), lambda r: T.Cls(bool), lambda r: T.Cls(bytes), lambda r: T.Cls(object), lambda r: T.Cls(V.Vow),
            lambda r: T.cls_node(r, type(None)), lambda r: T.AnyN(), lambda r: T.Lit(r, [1]), lambda r: T.Lit(r, ['a', 'b']), lambda r: T.Lit(r, [None, 2]), lambda r: T.Lit(r, [True, 'x']),
            lambda r: T.ListN(r, None), lambda r: T.DictN(r, None, None), lambda r: T.DictN(r, None, None, True), lambda r: T.SetN(r, None), lambda r: T.SeqN(r, None), lambda r: T.TupN(r, 'bare', []),
            lambda r: T.UnionN(r, [T.Cls(int), T.cls_node(r, type(None))]), lambda r: T.UnionN(r, [T.cls_node(r, type(None)), T.Cls(str)]), lambda r: T.UnionN(r, [T.Cls(int), T.Cls(str)]),
            lambda r: T.UnionN(r, [T.ListN(r, T.Cls(int)), T.Cls(str)]), lambda r: T.UnionN(r, [T.ListN(r, T.Cls(int)), T.ListN(r, T.Cls(str))]),
            lambda r: T.ListN(r, T.Cls(int)), lambda r: T.ListN(r, T.UnionN(r, [T.Cls(int), T.Cls(type(None))])), lambda r: T.DictN(r, T.Cls(str), T.Cls(int)), lambda r: T.DictN(r, T.Cls(str), T.Cls(int), True),
            lambda r: T.SetN(r, T.Cls(int)), lambda r: T.SeqN(r, T.Cls(int)), lambda r: T.TupN(r, 'fixed', []), lambda r: T.TupN(r, 'fixed', [T.Cls(int), T.Cls(str)]), lambda r: T.TupN(r, 'var', [T.Cls(int)]),
            lambda r: T.gen_td(r, 1)][k]


INNER = 34
_S, _I = (lambda r: texpr.Cls(str)), (lambda r: texpr.Cls(int))
# constructor around an inner expression e, and the values made of an inner value x and a matching inner value o
OUTER = [
    ('none', lambda r, e: e, lambda x, o: [x]),
    ('list', lambda r, e: texpr.ListN(r, e), lambda x, o: [[x], [o, x], [x, o, o], [o, o, x, o], (x,), {0: x}]),
    ('seq', lambda r, e: texpr.SeqN(r, e), lambda x, o: [[x], (o, x), [x, o], V.ListSub([o, o, x])]),
    ('set', lambda r, e: texpr.SetN(r, e), lambda x, o: [lambda: {x}, lambda: {o, x}, lambda: frozenset([x])]),
    ('dictkey', lambda r, e: texpr.DictN(r, e, _I(r)), lambda x, o: [lambda: {x: 1}, lambda: {o: 2, x: 1}, lambda: {x: 'no'}, lambda: {x: 1, o: 2}]),
    ('dictvalue', lambda r, e: texpr.DictN(r, _S(r), e), lambda x, o: [{'a': x}, {'a': o, 'b': x}, {'a': x, 'b': o}, {3: x}, V.MyMapping({'a': x})]),
    ('mapkey', lambda r, e: texpr.DictN(r, e, _I(r), True), lambda x, o: [lambda: {x: 1}, lambda: V.MyMapping({o: 2, x: 1}), lambda: {x: 'no'}]),
    ('mapvalue', lambda r, e: texpr.DictN(r, _S(r), e, True), lambda x, o: [V.MyMapping({'a': x}), {'a': o, 'b': x}, {3: x}]),
    ('tup1', lambda r, e: texpr.TupN(r, 'fixed', [e]), lambda x, o: [(x,), (x, x), (), [x]]),
    ('tupfirst', lambda r, e: texpr.TupN(r, 'fixed', [e, _S(r)]), lambda x, o: [(x, 'a'), (x,), (x, 'a', 'b'), (x, 3)]),
    ('tuplast', lambda r, e: texpr.TupN(r, 'fixed', [_I(r), _S(r), e]), lambda x, o: [(1, 'a', x), (1, 'a', x, x), (1, 2, x), (1, 'a')]),
    ('tupsame', lambda r, e: texpr.TupN(r, 'fixed', [e, e]), lambda x, o: [(x, x), (o, x), (x, o), (x,), (x, o, o), (o, o, x), (o,) * 4, (x, x, x)]),
    ('tupvar', lambda r, e: texpr.TupN(r, 'var', [e]), lambda x, o: [(x,), (o, x), (x, o, o), (o, o, o, x), (), [x]]),
    ('optional', lambda r, e: texpr.UnionN(r, [e, texpr.cls_node(r, type(None))]), lambda x, o: [x]),
    ('optional2', lambda r, e: texpr.UnionN(r, [texpr.cls_node(r, type(None)), e]), lambda x, o: [x]),
    ('unionfirst', lambda r, e: texpr.UnionN(r, [e, texpr.Cls(V.Tagged)]), lambda x, o: [x]),
    ('unionlast', lambda r, e: texpr.UnionN(r, [texpr.Cls(V.Tagged), _S(r), e]), lambda x, o: [x]),
    ('listopt', lambda r, e: texpr.ListN(r, texpr.UnionN(r, [e, texpr.Cls(type(None))])), lambda x, o: [[x], [None, x], [o, x, None]]),
    ('optlist', lambda r, e: texpr.UnionN(r, [texpr.ListN(r, e), texpr.Cls(type(None))]), lambda x, o: [[x], [o, x], x]),
    ('listlist', lambda r, e: texpr.ListN(r, texpr.ListN(r, e)), lambda x, o: [[[x]], [[o], [o, x]], [[], [x]], [x]]),
    ('dictlist', lambda r, e: texpr.DictN(r, _S(r), texpr.ListN(r, e)), lambda x, o: [{'a': [x]}, {'a': [o], 'b': [o, x]}, {'a': [], 'b': [x]}, {'a': x}]),
    ('tdreq', lambda r, e: texpr.td_of({'k': (e, True), 'z': (texpr.Cls(int), True)}), lambda x, o: [{'k': x, 'z': 1}, {'k': x}, {'z': 1}, {'k': x, 'z': 1, 'q': 1}, {'k': x, 'z': 'no'}]),
    ('tdopt', lambda r, e: texpr.td_of({'k': (e, False), 'z': (texpr.Cls(int), True)}), lambda x, o: [{'k': x, 'z': 1}, {'k': x}, {'z': 1}, {'k': x, 'z': 'no'}]),
]
POOL = [None, 0, 1, 2, True, False, 1.0, 1.5, '', 'a', 'x', b'a', [], [1], ['a'], [None], [1, 'a'], (), (1,), ('a',), (1, 'a'), (1, 2), (1, 'a', 2), {}, {'a': 1}, {'a': 'b'}, {1: 1}, {1: 'a'},
        frozenset(), {1}, {'a'}, frozenset({1}), V.Vow(1), 1j, object, V.ListSub([1]), V.DictSub(a=1), V.MyMapping({'a': 1}), bytearray(b'a'), range(2), {'a': 1}.keys(), {'a': 1}.values(), ..., iter(())]


def systematic(rng, mon, i):
    oname, outer, wrap = OUTER[i % len(OUTER)]
    inner = _sub(i // len(OUTER) % INNER)(rng)
    if oname in ('set', 'dictkey', 'mapkey') and not inner.hashable:
        # members are hashable values all the same; the expression is allowed
        mon.count('unhashable_inner')
    n = outer(rng, inner)
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': field_for(n, rng)[-1][1](required=False), '__module__': 'm'})
    vals = POOL + [inner.gen(rng) for _ in range(3)] + [inner.near(rng) for _ in range(3)]
    good = next((v for v in [inner.gen(rng) for _ in range(8)]), None)
    for x in vals:
        for v in wrap(x, good):
            if callable(v) and v is not x:
                try:
                    v = v()
                except TypeError:       # unhashable
                    continue
            want = n.match(v)
            info = dict(expr=n.desc(), value=repr(v)[:1500], expected=want, constructor=oname)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                try:
                    oblate.validate_types({'x': n.tp}, {'x': v})
                    got = True
                except oblate.TypeValidationError as e:
                    got = False
                    check(set(e.errors) == {'x'} and messages_ok(e.errors['x']), 'rejection is not reported with messages', errors=e.errors, **info)
                check(got == want, 'validate_types decides otherwise', **info)
                if v is not None:
                    try:
                        s = S({'v': v})
                        check(want and s.v is v, 'a field accepts a value that does not match', **info)
                    except oblate.ValidationError as e:
                        check(not want, 'a field rejects a matching value', error=str(e), **info)
            check(not ws, 'a warning was issued for a supported type expression', warning=[str(w.message) for w in ws], **info)
            mon.count('systematic_accept' if want else 'systematic_reject')
    mon.count('systematic')
    mon.seen('systematic', oname, i // len(OUTER) % INNER)
    texpr.release(n)


def zoo(rng, mon):
    """Plain classes of every kind, against instances of all of them: isinstance decides."""
    oname, outer, wrap = OUTER[rng.randrange(len(OUTER))]
    for c in rng.sample(classzoo.CLASSES, 10):
        n = outer(rng, texpr.Cls(c))
        S = type(oblate.Schema)('S', (oblate.Schema,), {'v': field_for(n, rng)[-1][1](required=False), '__module__': 'm'})
        good = next((v for v in classzoo.VALUES if isinstance(v, c)), None)
        vals = classzoo.VALUES if oname == 'none' else rng.sample(classzoo.VALUES, 30) + [good]
        for x in vals:
            for v in wrap(x, good):
                if oname in ('set', 'dictkey', 'mapkey') and callable(v) and v is not x:
                    try:
                        v = v()
                    except TypeError:       # unhashable
                        continue
                want = n.match(v)
                info = dict(expr=n.desc(), value=repr(v)[:500], expected=want, constructor=oname)
                try:
                    oblate.validate_types({'x': n.tp}, {'x': v})
                    got = True
                except oblate.TypeValidationError:
                    got = False
                check(got == want, 'validate_types decides otherwise for a plain class', **info)
                if v is not None and rng.random() < .2:
                    try:
                        s = S({'v': v})
                        check(want and s.v is v, 'a field accepts a value that is no instance of the class', **info)
                    except oblate.ValidationError as e:
                        check(not want, 'a field rejects an instance of the class', error=str(e), **info)
                mon.count('zoo_accept' if want else 'zoo_reject')
        mon.seen('zoo', oname, c.__name__)
    texpr.release(None)


def case(rng, mon, i, tier):
    if i % 20 == 3:
        zoo(rng, mon)
    if i < len(OUTER) * INNER * (1 if tier == 'quick' else 3):
        return systematic(rng, mon, i)
    depth = rng.choice([0, 1, 1, 2, 2, 3] if tier == 'quick' else [0, 1, 2, 2, 3, 3, 4])
    r = rng.random()
    if r < .12:
        n = texpr.gen_td(rng, depth or 1)
    elif r < .2:
        n = texpr.Lit(rng)
    elif r < .3:
        n = texpr.UnionN(rng, [texpr.gen(rng, depth - 1) for _ in range(rng.choice([2, 3]))])
    elif r < .36:
        n = texpr.SetN(rng, texpr.gen(rng, depth - 1, True) if rng.random() < .8 else None)
    elif r < .42:
        n = texpr.ListN(rng, texpr.gen(rng, depth - 1) if rng.random() < .8 else None)
    elif r < .48:
        n = texpr.DictN(rng, texpr.gen(rng, depth - 1, True), texpr.gen(rng, depth - 1)) if rng.random() < .8 else texpr.DictN(rng, None, None)
    else:
        n = texpr.gen(rng, depth)
    fields = field_for(n, rng)
    kinds = [k for k, _ in fields]
    mk = fields[-1] if rng.random() < .7 else fields[0]
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': mk[1](required=False), 'w': fields[0][1](required=False), '__module__': 'm'})
    for _ in range(rng.choice([3, 4, 6])):
        v = texpr.value_for(n, rng)
        if rng.random() < .04:
            v2 = enlarge(n, v, rng)
            if v2 is not None:
                v = v2
                mon.count('large')
        want = n.match(v)
        before = V.canon(v)
        info = dict(expr=n.desc(), value=repr(v)[:1500], expected=want)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            key = rng.choice(['root', 'x', 0, None])
            try:
                res = oblate.validate_types({key: n.tp}, {key: v})
            except oblate.TypeValidationError as e:
                check(not want, 'validate_types rejects a matching value', errors=e.errors, **info)
                check(set(e.errors) == {key} and messages_ok(e.errors[key]), 'rejection is not reported with messages', errors=e.errors, **info)
            else:
                check(want, 'validate_types accepts a value that does not match', **info)
                check(res is None, 'validate_types returned something', **info)
            mon.count('validate_types')
            if v is not None:
                for name, kind in (('v', mk[0]), ('w', 'typeexpr')):
                    path = rng.choice(['construct', 'construct', 'update', 'assign'])
                    try:
                        if path == 'construct':
                            s = S({name: v})
                        else:
                            s = S({})
                            s.update({name: v}) if path == 'update' else setattr(s, name, v)
                    except oblate.ValidationError as e:
                        check(not want, f'{kind} field rejects a matching value on {path}', error=str(e), **info)
                        raw = e.raw()
                        check(set(raw) == {name} and messages_ok(raw[name]), f'{kind} field: rejection is not reported with messages', raw=raw, **info)
                    else:
                        check(want, f'{kind} field accepts a value that does not match on {path}', **info)
                        check(s.get_value_for(name) is v, f'{kind} field does not store the value unchanged', **info)
                    mon.count(kind)
                    mon.count(path)
        check(not ws, 'a warning was issued for a supported type expression', warning=[str(x.message) for x in ws], **info)
        check(V.canon(v) == before, 'the validated value was changed', **info)
        mon.count('accept' if want else 'reject')
        mon.seen(shape(n), want, mk[0])
        mon.sample(f'{n.desc()} {"accepts" if want else "rejects"} {v!r}'[:500])
    mon.count('typed_dict_inside', 'TD' in repr(shape(n)))
    texpr.release(n)
