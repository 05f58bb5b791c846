"""C01: construction verdict and values versus the reference model."""
import collections
import typing as t

import oblate
from oblate import fields as F

from .. import scale, texpr, values as V
from ..core import check
from ..world import World, check_verdict, cmp_values

ID = 'C01'
QUICK, THOROUGH = 6000, 160000
RULE = ('random schema definitions (all field kinds, keys, defaults, None, validators, nesting <= 3, inheritance) x several inputs with 0-5 defects; '
        'a case is non-trivial by the distinct (field kinds present, verdict, set of failure origins) it shows')
NEED = ['accepted', 'rejected', 'non_mapping_refused', 'defaults_called', 'nested_accepted', 'ignored_extra', 'default_sets_field', 'large', 'odd_defaults']


def large(rng, mon):
    """Long chains of nested schemas and schemas with hundreds of fields."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width)
    d, vals, rep = scale.data(rng, n, rng.choice([0, 0, .01]))
    try:
        inst = n.cls(d)
    except oblate.ValidationError as e:
        check(rep, 'valid data of unusual size are rejected', depth=depth, width=width, error=str(e)[-500:])
    else:
        check(not rep, 'invalid data of unusual size are accepted', depth=depth, width=width, expected=repr(rep)[:500])
        scale.same_values(n, inst, vals)
    mon.count('large')
    mon.seen('large', depth, width // 20, bool(rep))


class Box(dict):
    """A default that is both a mapping and callable."""
    def __call__(self, ctx, field):
        return ('called', ctx, field)


def odd_defaults(rng, mon):
    """A default is the value of the omitted field as it is, whatever the field would do with it as input."""
    class Sub(oblate.Schema):
        a = F.Any(required=False)
    sub = Sub({'a': 1})
    values = [{}, {'a': 1}, {'zz': 1}, [], [1], set(), (), '', 'x', 0, 1, 1.5, False, True, None, sub, ..., NotImplemented, b'', collections.OrderedDict(a=1), V.Tagged(3), Box()]
    kinds = [lambda **k: F.Object(Sub, **k), lambda **k: F.Object(Sub, init_kwargs={'ignore_extra': True}, **k), F.Integer, lambda **k: F.Integer(strict=False, **k), F.String, lambda **k: F.String(strict=False, **k),
             F.Float, lambda **k: F.Float(strict=False, **k), F.Boolean, lambda **k: F.Boolean(strict=False, **k), F.Any, F.List, lambda **k: F.List(int, **k), F.Set, F.Dict, lambda **k: F.Dict(str, int, **k),
             lambda **k: F.Literal(1, 'x', **k), lambda **k: F.Union(int, str, **k), lambda **k: F.TypeExpr(t.List[int], **k), lambda **k: F.TypedDict(t.TypedDict('T', {'a': int}), **k)]
    ns, exp = {'__module__': 'm'}, {}
    for k in range(rng.randrange(1, 8)):
        v = rng.choice(values)
        how = rng.randrange(3)
        called = []
        if how and not callable(v):
            def default(ctx, field, v=v, called=called):
                called.append((ctx, field))
                return v
        else:
            default = v
        kw = {}
        if rng.random() < .3:
            kw['load_key'] = f'k{k}'
        if rng.random() < .3:
            kw['none'] = True
        if rng.random() < .2:
            kw['frozen'] = True
        ns[f'x{k}'] = rng.choice(kinds)(default=default, **kw)
        exp[f'x{k}'] = (v, default, called)
    A = type(oblate.Schema)('A', (oblate.Schema,), ns)
    extra = {f'x{k}': 1 for k in range(8) if f'x{k}' not in A.__load_fields__} if rng.random() < .5 else {}
    a = A(extra, ignore_extra=True) if extra else A({})
    for name, (v, default, called) in exp.items():
        got = a.get_value_for(name)
        field = getattr(A, name)
        info = dict(field=name, kind=type(field).__name__, default=repr(default), got=repr(got))
        if callable(v):
            check(type(got) is tuple and got[0] == 'called' and got[1] is a.context and got[2] is field, 'a callable default was not called with the context and the field', **info)
        else:
            check(got is v, 'an omitted field does not hold its default', **info)
            if default is not v:
                check(len(called) == 1 and called[0][0] is a.context and called[0][1] is field, 'a callable default was not called once with the context and the field', calls=len(called), **info)
        mon.seen('odd_default', type(field).__name__, type(v).__name__, default is v)
    mon.count('odd_defaults')


def case(rng, mon, i, tier):
    if rng.random() < .02:
        large(rng, mon)
    if rng.random() < .1:
        odd_defaults(rng, mon)
    w = World(rng)
    prof = dict(p_fmt=.2, p_large=.02)
    if rng.random() < .3:
        prof['validators'] = .15
    ss = w.gen_schema(rng.choice([0, 1, 1, 2, 3]), prof)
    for k in range(rng.choice([2, 3, 4])):
        data = w.gen_data(ss, rng, rng.choice([0, 0, 0, 0, 1, 1, 2, 5]), p_opt=rng.choice([0, .5, .8, 1]))
        kw = {}
        if rng.random() < .3:
            kw['ignore_extra'] = rng.random() < .6
        def step(kind, spec, schema, value, ctx):
            if kind == 'default' and rng.random() < .3:
                # the default itself sets the field meanwhile: what it returns counts
                w.recording, w.on_step = False, None
                try:
                    schema.update({spec.lk: w.good_value(spec, rng)})
                    mon.count('default_sets_field')
                except oblate.OblateException:
                    pass
                finally:
                    w.recording, w.on_step = True, step
        w.on_step = step
        r = w.construct(ss, data, **kw)
        w.on_step = None
        v = check_verdict(r)
        kinds = tuple(sorted({f.kind for f in ss.all_fields()}))
        mon.seen(kinds, v, tuple(sorted({e.origin.split()[0] for e in r.merrs})))
        if v == 'ok':
            mon.count('accepted')
            check(type(r.real) is ss.cls, 'result is not an instance of the class', r=r)
            cmp_values(r.real, r.mobj, 'construction:', r=r)
            for f in ss.all_fields():
                # attribute access agrees with get_value_for
                if f.name in r.mobj.vals:
                    check(V.same(getattr(r.real, f.name), r.mobj.vals[f.name]), f'attribute {f.name} differs from the stored value', r=r)
                else:
                    check(not hasattr(r.real, f.name), f'field {f.name} has a value although none was given', r=r)
                if f.kind == 'object' and isinstance(r.mobj.vals.get(f.name), V.MObj):
                    mon.count('nested_accepted')
            if len([k for k in data if k not in ss.by_key()]):
                mon.count('ignored_extra')
            for ev in r.events:
                if ev.kind == 'default':
                    mon.count('defaults_called')
                    check(isinstance(ev.ctx, oblate.SchemaContext) and ev.ctx is ev.schema.context, 'callable default did not get the schema context', r=r)
                    check(ev.value is getattr(type(ev.schema), ev.spec.name), 'callable default did not get the field', r=r)
            need = sorted(f.fid for fr in r.frames for f in fr.defaults)
            got = sorted(ev.spec.fid for ev in r.events if ev.kind == 'default')
            check(need == got, 'callable defaults called a wrong number of times', need=need, got=got, r=r)
        else:
            mon.count('rejected')
        mon.sample(f'{ss!r} <- {data!r}: {v}')
    bad = rng.choice([None, 5, 'abc', [('a', 1)], {1, 2}, (), 1.5, object(), ss.cls, b'', iter([]), V.Tagged(1)])
    try:
        ss.cls(bad)
    except TypeError as e:
        check(not isinstance(e, oblate.OblateException), 'wrong exception for non-mapping')
        mon.count('non_mapping_refused')
    else:
        check(False, 'non-mapping accepted', data=bad)
    texpr.release(None)
