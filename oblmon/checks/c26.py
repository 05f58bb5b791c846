"""C26: reads of fields over histories, against the model of the stored values."""
import oblate
from oblate import fields as F

from .. import noise, texpr, values as V
from ..core import check
from ..world import SENT, World, check_verdict, cmp_values, fields_of, vals_of

ID = 'C26'
QUICK, THOROUGH = 5000, 120000
RULE = ('random schemas with load keys that clash with other field names in every way; many instances of one class; histories of updates, assignments, copies, failed operations and later changes of the mappings the values came '
        'from; every way of reading after every step; distinct by (way of reading, name or key, set or unset, value class, fallback)')
NEED = ['attribute', 'by_name', 'by_key', 'unset_attribute', 'unset_get', 'fallback', 'not_a_field', 'clash', 'falsy', 'none_values', 'instances', 'data_changed', 'during_load', 'after_failure', 'history', 'hasattr', 'same_name_classes', 'read_inside', 'during_update']

FALLBACKS = [None, 0, '', False, [], {}, (), 'fb', V.Tagged(9), oblate.MISSING if hasattr(oblate, 'MISSING') else 1, KeyError, ValueError('x'), Ellipsis]
NOT_FIELDS = ['nope', '', 'Config', '_field_values', 'copy', 'dump', '__class__', 'context', 0, None, ('a',), 1.5, b'a', 'A ', ' a', 'update', True]


def gen_class(rng):
    """Fields whose load keys may be other fields' names."""
    names = rng.sample(['a', 'b', 'c', 'd', 'e', 'name', 'value'], rng.choice([2, 3, 4, 5]))
    perm = list(names)
    rng.shuffle(perm)
    lks = {}
    used = set()
    mode = rng.choice(['perm', 'mixed', 'partial', 'plain'])
    for n, p in zip(names, perm):
        if mode == 'perm':
            k = p
        elif mode == 'plain':
            k = n
        else:
            k = rng.choice([n, p, f'K-{n}', n.upper(), ''])
        if k in used:
            k = f'key {n}'
        used.add(k)
        lks[n] = k
    # a key equal to the name of a field that has another key is the clash of interest
    ns = {'__module__': 'oblmon.generated'}
    kinds = {}
    for n in names:
        kinds[n] = rng.choice(['any', 'any', 'int', 'str', 'bool', 'list'])
        kw = dict(required=False, none=True)
        if lks[n] != n or rng.random() < .2:
            kw['load_key'] = lks[n]
        if rng.random() < .2:
            kw['default'] = rng.choice([None, 0, '', False, 'dflt', [], lambda c, f: 0, lambda c, f: None])
        ns[n] = {'any': F.Any, 'int': F.Integer, 'str': F.String, 'bool': F.Boolean, 'list': F.List}[kinds[n]](**kw)
    hook = {}

    def preprocess_data(self, data):
        if 'fn' in hook:
            hook['fn'](self)
        return data
    ns['preprocess_data'] = preprocess_data
    if rng.random() < .5:
        # user code that reads every field while others are processed
        for n in rng.sample(names, rng.choice([1, len(names)])):
            ns[n].add_validator(lambda schema, value, ctx: peek(schema, names), raw=rng.random() < .5)
    return type(oblate.Schema)('Sch', (oblate.Schema,), ns), names, lks, kinds, hook


def peek(schema, names):
    for n in names:
        schema.get_value_for(n, None)
        getattr(schema, n, None)
        hasattr(schema, n)


def value(rng, kind):
    if rng.random() < .2:
        return None
    return {'any': lambda: rng.choice([0, '', False, [], {}, (), 0.0, V.anyval(rng, 2), 'x', V.Tagged(1), V.Hostile() if hasattr(V, 'Hostile') else 3]), 'int': lambda: rng.choice([0, 1, -5, False]),
            'str': lambda: rng.choice(['', 'x']), 'bool': lambda: rng.random() < .5, 'list': lambda: rng.choice([[], [1], [[]]])}[kind]()


def bad(rng, kind):
    return {'any': SENT, 'int': 'q', 'str': 5, 'bool': 'x', 'list': {}}[kind]


class FallbackSchema(oblate.Schema):
    a = F.Any(default=1)
    b = F.Any(default=None)


def other_instances(rng, x):
    """Instances that hold values, of this class among them."""
    out = [FallbackSchema({}), FallbackSchema({'a': x})]
    try:
        c = x.copy()
        for n in type(c).__fields__:
            setattr(c, n, 'held')
        out += [c, c]
    except Exception:  # fields that refuse the value: decided elsewhere
        pass
    return out


def reads(rng, mon, cls, names, lks, x, vals, what, **info):
    """All the ways to read every field, and names that are no fields."""
    bykey = {}
    for n in names:
        bykey[lks[n]] = n
    targets = [(n, n) for n in names] + [(k, k if k in names else n) for k, n in bykey.items()]
    for used, n in targets:
        fld = getattr(cls, n)
        clash = used in bykey and bykey[used] != n
        mon.count('clash', clash)
        if n in vals:
            v = vals[n]
            if used == n:
                try:
                    got = getattr(x, n)
                except Exception as e:
                    check(False, f'{what}: attribute access of a set field raised', field=n, exc=repr(e), **info)
                check(got is v, f'{what}: attribute access gives another value', field=n, got=got, expected=v, **info)
                check(hasattr(x, n), f'{what}: hasattr is False for a set field', field=n, **info)
                mon.count('attribute')
            for d in ((), (rng.choice(FALLBACKS),)):
                try:
                    got = x.get_value_for(used, *d)
                except Exception as e:
                    check(False, f'{what}: get_value_for of a set field raised', name=used, exc=repr(e), **info)
                check(got is v, f'{what}: get_value_for gives another value', name=used, field=n, fallback=d, got=got, expected=v, **info)
            mon.count('by_name' if used == n else 'by_key')
            mon.count('falsy', not v if not isinstance(v, V.Tagged) else False)
            mon.count('none_values', v is None)
            mon.seen('set', used == n, clash, type(v).__name__, bool(d))
        else:
            ways = [lambda: x.get_value_for(used)]
            if used == n:
                ways.append(lambda: getattr(x, n))
                check(not hasattr(x, n), f'{what}: hasattr is True for a field without a value', field=n, **info)
                check(getattr(x, n, SENT) is SENT, f'{what}: getattr with a default gives something else for a field without a value', field=n, **info)
                mon.count('hasattr')
            for j, fn in enumerate(ways):
                try:
                    got = fn()
                except oblate.FieldNotSet as e:
                    check(isinstance(e, AttributeError), 'FieldNotSet is no AttributeError')
                    check(e.field is fld, f'{what}: FieldNotSet names another field', name=used, got=e.field, **info)
                    check(e.schema is x, f'{what}: FieldNotSet names another schema', name=used, **info)
                    check(e.name == used, f'{what}: FieldNotSet carries another name', name=used, got=e.name, **info)
                except Exception as e:
                    check(False, f'{what}: reading a field without a value raised another error', name=used, exc=repr(e), **info)
                else:
                    check(False, f'{what}: a field without a value has one', name=used, got=got, **info)
                mon.count('unset_attribute' if j else 'unset_get')
            for fb in rng.sample(FALLBACKS, 3) + [x, cls, fld, rng.choice(other_instances(rng, x))]:
                try:
                    got = x.get_value_for(used, fb)
                except Exception as e:
                    check(False, f'{what}: a fallback was not used', name=used, fallback=fb, exc=repr(e), **info)
                check(got is fb, f'{what}: get_value_for does not give the fallback', name=used, fallback=fb, got=got, **info)
                mon.count('fallback')
                mon.seen('unset', used == n, clash, type(fb).__name__ if isinstance(fb, (oblate.Schema, F.Field, type)) else repr(fb))
    for bad_name in rng.sample(NOT_FIELDS, 3):
        if bad_name in names or bad_name in bykey:
            continue
        for d in ((), (rng.choice(FALLBACKS),)):
            try:
                got = x.get_value_for(bad_name, *d)
            except RuntimeError:
                pass
            except Exception as e:
                check(False, f'{what}: a name that is no field raised another error', name=bad_name, fallback=d, exc=repr(e), **info)
            else:
                check(False, f'{what}: a name that is no field has a value', name=bad_name, fallback=d, got=got, **info)
            mon.count('not_a_field')


def histories(rng, mon):
    cls, names, lks, kinds, hook = gen_class(rng)
    info = dict(keys=lks)
    clss = [cls]
    for _ in range(rng.choice([0, 0, 1, 2])):
        # subclasses of the same name, some fields overridden
        ns = {'__module__': 'oblmon.generated', '__qualname__': cls.__qualname__}
        for n in names:
            if rng.random() < .4:
                ns[n] = getattr(cls, n).copy()
        clss.append(type(oblate.Schema)('Sch', (cls,), ns))
        mon.count('same_name_classes')
    flds = {(c, n): getattr(c, n) for c in clss for n in names}
    insts = []

    def make():
        d, vals = {}, {}
        for n in rng.sample(names, rng.randrange(len(names) + 1)):
            d[lks[n]] = vals[n] = value(rng, kinds[n])
        if rng.random() < .3:
            def fn(s):
                reads(rng, mon, type(s), names, lks, s, {}, 'before loading', **info)
                mon.count('during_load')
            hook['fn'] = fn
        x = rng.choice(clss)(d)
        hook.clear()
        for n in names:
            f = flds[cls, n]
            if n not in vals and f.has_default():
                vals[n] = x.get_value_for(n) if callable(f.default) else f.default
                check(not callable(f.default) or vals[n] in (0, None), 'a callable default was not called')
        return x, vals, d
    for _ in range(rng.choice([1, 2, 3, 8])):
        insts.append(make())
    mon.count('instances', len(insts) > 1)
    ops = []
    for step in range(rng.choice([2, 4, 8])):
        k = rng.randrange(len(insts))
        x, vals, d = insts[k]
        op = rng.choice(['update', 'assign', 'bad_update', 'bad_assign', 'copy', 'clear', 'noise', 'wipe'])
        ops.append(op)
        if op == 'update':
            u = {}
            for n in rng.sample(names, rng.randrange(len(names) + 1)):
                u[lks[n]] = vals[n] = value(rng, kinds[n])
            x.update(u)
            if rng.random() < .5:
                u.clear()
                mon.count('data_changed')
        elif op == 'assign':
            n = rng.choice(names)
            v = value(rng, kinds[n])
            setattr(x, n, v)
            vals[n] = v
        elif op in ('bad_update', 'bad_assign'):
            c = [n for n in names if kinds[n] != 'any']
            if not c:
                continue
            n = rng.choice(c)
            try:
                if op == 'bad_assign':
                    setattr(x, n, bad(rng, kinds[n]))
                else:
                    m = rng.choice(names)
                    x.update({lks[m]: value(rng, kinds[m]), lks[n]: bad(rng, kinds[n])})
            except oblate.ValidationError:
                pass
            else:
                check(False, 'a bad value was accepted', **info)
            mon.count('after_failure')
        elif op == 'copy':
            insts.append((x.copy(), dict(vals), d))
        elif op == 'clear':
            d.clear()
            d['a'] = 'other'
            mon.count('data_changed')
        elif op == 'wipe':
            x.dump().clear()
            y = x.dump()
            for key in y:
                y[key] = SENT
            mon.count('data_changed')
        else:
            noise.run(rng.randrange(99))
        for x, vals, d in insts:
            reads(rng, mon, type(x), names, lks, x, vals, f'after {ops}', **info)
    mon.count('history')
    check(all(getattr(c, n) is f for (c, n), f in flds.items()), 'reading a field on the class gives something else')
    mon.sample(f'{lks} after {ops}')


def worlds(rng, mon):
    w = World(rng)
    prof = dict(load_rates=[0, 0, 4], p_keys=.8, p_object=.3, p_frozen=.1, vrate=rng.choice([0, 2]), p_inherit=.4)
    ss = w.gen_schema(rng.choice([0, 1, 2]), prof)
    insts = []
    for _ in range(rng.choice([1, 2, 4])):
        r = w.construct(ss, w.gen_data(ss, rng, 0, p_opt=rng.choice([.2, .6, 1])))
        check_verdict(r)
        if r.ok:
            insts.append((r.real, r.mobj))
    if not insts:
        return
    names = [f.name for f in ss.all_fields()]
    lks = {f.name: f.lk for f in ss.all_fields()}
    last = [{f.name: x for f, x in fields_of(real)[1]} for real, m in insts]
    if rng.random() < .5:
        w.on_step = lambda kind, spec, schema, value, ctx: schema is not None and peek(schema, [f.name for f in type(schema).__monspec__.all_fields()])
        mon.count('read_inside')
    inside = w.on_step
    now = {}

    def step(kind, spec, schema, value, ctx):
        # while an operation is under way a field has its earlier value or the new one
        if inside is not None:
            inside(kind, spec, schema, value, ctx)
        if schema is not now.get('schema'):
            return
        for n, x in now['had'].items():
            got = schema.get_value_for(n, SENT)
            if got is SENT or not hasattr(schema, n):
                now['bad'].append(('a field lost its value while an operation is under way', n, kind, None))
            elif got is not x and lks[n] not in now['keys']:
                now['bad'].append(('a field not in the data has another value while an operation is under way', n, kind, got))
            mon.count('during_update')
        for n in names:
            if n not in now['had'] and lks[n] not in now['keys'] and schema.get_value_for(n, SENT) is not SENT:
                now['bad'].append(('a field not in the data got a value while an operation is under way', n, kind, None))
    for _ in range(rng.choice([1, 3, 5])):
        k = rng.randrange(len(insts))
        real, mobj = insts[k]
        w.on_step = step
        now.update(schema=real, had=last[k], bad=[])
        if rng.random() < .5:
            d = w.gen_data(ss, rng, rng.choice([0, 0, 1, 2]), p_opt=.5)
            now['keys'] = list(d)
            w.update(real, mobj, d)
        else:
            f = rng.choice(ss.all_fields())
            now['keys'] = [f.lk]
            w.assign(real, mobj, f, w.ok_value(f, rng)[0] if rng.random() < .7 else w.fail_value(f, rng)[0])
        w.on_step = None
        for what, n, kind, got in now['bad'][:1]:
            check(False, what, field=n, stage=kind, keys=now['keys'], got=got, had=now['had'])
        cmp_values(real, mobj, 'after an operation:')
        last[k] = {f.name: x for f, x in fields_of(real)[1]}
        for (x, m), vals in zip(insts, last):
            reads(rng, mon, ss.cls, names, lks, x, vals, 'history', schema=repr(ss))
    texpr.release(None)


def hooked(rng, mon):
    """Values stored by user code while an instance is being made."""
    names = rng.sample(['a', 'b', 'c', 'd'], rng.choice([1, 2, 4]))
    lks = {n: rng.choice([n, f'K{n}']) for n in names}
    setting = {n: rng.choice([0, None, 'v', [], V.Tagged(1)]) for n in names if rng.random() < .5}
    given = {n: rng.choice([1, None, '', 'g']) for n in names if rng.random() < .4}
    how = rng.choice(['assign', 'update'])

    def post(self):
        if how == 'update':
            self.update({lks[n]: v for n, v in setting.items()})
        else:
            for n, v in setting.items():
                setattr(self, n, v)
    cls = type(oblate.Schema)('H', (oblate.Schema,), {**{n: F.Any(none=True, required=False, load_key=lks[n]) for n in names}, '__schema_post_init__': post, '__module__': 'm'})
    x = cls({lks[n]: v for n, v in given.items()})
    vals = {**given, **setting}
    reads(rng, mon, cls, names, lks, x, vals, 'after a post-init hook that stores values', how=how)
    O = type(oblate.Schema)('O', (oblate.Schema,), {'h': F.Object(cls), '__module__': 'm'})
    reads(rng, mon, cls, names, lks, O({'h': {lks[n]: v for n, v in given.items()}}).h, vals, 'after a post-init hook that stores values', how=how)
    x.update({})
    reads(rng, mon, cls, names, lks, x, vals, 'after an empty update', how=how)
    mon.count('hooked', bool(setting))


def case(rng, mon, i, tier):
    if i % 8 == 0:
        hooked(rng, mon)
    if i % 3:
        histories(rng, mon)
    else:
        worlds(rng, mon)
