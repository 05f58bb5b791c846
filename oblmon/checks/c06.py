"""C06: frozen schemas and fields over histories of operations."""
import oblate
from oblate import fields as F

from .. import noise, texpr, values as V
from ..core import check
from ..world import SENT, World, bind, cmp_values, fields_of, vals_of

ID = 'C06'
QUICK, THOROUGH = 5000, 110000
RULE = ('random schemas with frozen configuration and frozen fields, inherited and overriding, nested, copied; histories of valid and invalid updates and assignments in '
        'every form; distinct by (what is frozen, operation, data shape, instance origin)')
NEED = ['schema_frozen_update', 'schema_frozen_assign', 'field_frozen_update', 'field_frozen_assign', 'nested_frozen', 'copies', 'subclassed', 'unfrozen_subclass',
        'unset_frozen', 'other_fields_updated', 'callback_attempts', 'frozen_with_invalid', 'copied_fields', 'deletions']


def snap(real):
    # a nested schema is the same object for as long as the field is not changed, whatever its own fields hold
    return {f.name: (id(x), 'schema' if isinstance(x, oblate.Schema) else V.canon(x)) for f, x in fields_of(real)[1]}


def expect_frozen(fn, entity, what, **info):
    try:
        fn()
    except oblate.FrozenError as e:
        ents = entity if isinstance(entity, list) else [entity]
        check(any(e.entity is x for x in ents), f'{what}: FrozenError names another entity', entity=repr(e.entity), expected=repr(entity), **info)
    except BaseException as e:
        check(False, f'{what}: raised {type(e).__name__} instead of FrozenError', exc=repr(e), **info)
    else:
        check(False, f'{what}: frozen was changed without an error', **info)


def conf_frozen(cls_spec):
    return cls_spec.conf()['frozen']


def case(rng, mon, i, tier):
    w = World(rng)
    prof = dict(load_rates=[0, 0, 4], p_object=.4, p_frozen=.45, p_config=.5, p_sfrozen=.5, p_inherit=.4, p_fmt=.2, p_reuse=.3, p_keys=.5, vrate=rng.choice([0, 0, 3]))
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    # subclasses: plain (inherits the configuration), or with a configuration of its own
    spec = ss
    if rng.random() < .5 and not ss.parents:
        from ..world import SSpec
        sub = SSpec(f'Sub{w.uid()}')
        sub.parents = [ss]
        if rng.random() < .4:
            sub.config = {'frozen': rng.random() < .5}
            mon.count('unfrozen_subclass', ss.conf()['frozen'] and not sub.config['frozen'])
        if rng.random() < .4:
            sub.own = [w.gen_field(rng.choice([f.name for f in ss.all_fields()] + ['fresh']), 0, dict(prof, p_frozen=.5))]
            keys = [f.lk for f in sub.own]
            if any(f.lk in keys and f.name != sub.own[0].name for f in ss.all_fields()):
                sub.own = []
        w.build(sub)
        mon.count('subclassed')
        spec = sub
    if spec is ss and rng.random() < .25:
        spec = w.copied_spec(ss, rng, rng.choice([None, None, {'frozen': False}, {'frozen': True}])) or ss
        mon.count('copied_fields', spec is not ss and any(f.frozen for f in spec.all_fields()))
    data = w.gen_data(spec, rng, 0, p_opt=rng.choice([.3, .7, 1]))
    tried = []
    if rng.random() < .3:
        # user code tries to change frozen things from inside callbacks of the construction
        def step(kind, sp, schema, value, ctx):
            if kind not in ('raw', 'val', 'post', 'load') or schema is None or not hasattr(type(schema), '__monspec__'):
                return
            s = type(schema).__monspec__
            fr = [f for f in s.all_fields() if f.frozen or conf_frozen(s)]
            if fr:
                f = rng.choice(fr)
                b = snap(schema)
                ent = schema if conf_frozen(s) else getattr(type(schema), f.name)
                expect_frozen(lambda: setattr(schema, f.name, 5), ent, 'assignment from a callback', schema=repr(s))
                expect_frozen(lambda: schema.update({f.lk: 5}), ent, 'update from a callback', schema=repr(s))
                check(snap(schema) == b, 'frozen values changed from a callback')
                mon.count('callback_attempts')
        w.on_step = step
    r = w.construct(spec, data)
    if not r.ok or r.merrs:
        w.on_step = None
        mon.count('no_instance')
        return
    objs = [(r.real, r.mobj)]
    for f in spec.all_fields():
        x = r.real.get_value_for(f.name, None)
        m = r.mobj.vals.get(f.name)
        if isinstance(x, oblate.Schema) and isinstance(m, V.MObj):
            objs.append((x, m))
            mon.count('nested_frozen', conf_frozen(m.sspec) or any(g.frozen for g in m.sspec.all_fields()))
    fixed = {id(o): {n: s for n, s in snap(o).items() if conf_frozen(m.sspec) or m.sspec.field(n).frozen} for o, m in objs}
    unset = {id(o): {f.name for f in m.sspec.all_fields() if (f.frozen or conf_frozen(m.sspec)) and f.name not in snap(o)} for o, m in objs}
    for _ in range(rng.choice([4, 8, 12])):
        real, mobj = rng.choice(objs)
        s = mobj.sspec
        fs = s.all_fields()
        before = snap(real)
        shape = rng.choice(['valid', 'invalid', 'empty', 'extra', 'same'])
        d = {}
        if shape == 'valid':
            d = dict(w.gen_data(s, rng, 0, p_opt=.5))
        elif shape == 'invalid':
            d = dict(w.gen_data(s, rng, 3, p_opt=.5))
        elif shape == 'extra':
            d = {'zz': 1, **dict(list(w.gen_data(s, rng, 0).items())[:1])}
        elif shape == 'same':
            d = {f.lk: real.get_value_for(f.name, None) for f in rng.sample(fs, min(2, len(fs)))}
        info = dict(schema=repr(s), data=d, shape=shape)
        kw = {'ignore_extra': rng.random() < .5} if rng.random() < .4 else {}
        hit = next((s.by_key()[k] for k in d if k in s.by_key() and s.by_key()[k].frozen), None)
        op = rng.choice(['update', 'update', 'assign', 'copy', 'noise', 'dump', 'delete'])
        sf = conf_frozen(s)
        if op == 'update':
            if sf:
                expect_frozen(lambda: real.update(d, **kw), real, 'update of a frozen schema', **info)
                mon.count('schema_frozen_update')
                mon.count('frozen_with_invalid', shape in ('invalid', 'extra'))
            elif hit is not None:
                hits = [getattr(type(real), f.name) for f in fs if f.frozen and f.lk in d]
                expect_frozen(lambda: real.update(d, **kw), hits, 'update of a frozen field', **info)
                mon.count('field_frozen_update')
                mon.count('frozen_with_invalid', shape in ('invalid', 'extra'))
                mon.count('unset_frozen', hit.name not in before)
            else:
                rr = w.update(real, mobj, d, **kw)
                mon.count('other_fields_updated', rr.ok and bool(d))
                cmp_values(real, mobj, 'update of other fields:', r=rr)
                before = snap(real)
        elif op == 'assign' and fs:
            f = rng.choice(fs)
            v = w.ok_value(f, rng)[0] if rng.random() < .5 else w.fail_value(f, rng)[0] if rng.random() < .6 else real.get_value_for(f.name, None)
            if sf:
                expect_frozen(lambda: setattr(real, f.name, v), real, 'assignment on a frozen schema', value=repr(v), **info)
                mon.count('schema_frozen_assign')
            elif f.frozen:
                expect_frozen(lambda: setattr(real, f.name, v), getattr(type(real), f.name), 'assignment to a frozen field', value=repr(v), **info)
                mon.count('field_frozen_assign')
                mon.count('unset_frozen', f.name not in before)
            else:
                rr = w.assign(real, mobj, f, v)
                mon.count('other_fields_updated', rr.ok)
                cmp_values(real, mobj, 'assignment of another field:', r=rr)
                before = snap(real)
        elif op == 'copy' and len(objs) < 8:
            c = real.copy()
            m2 = V.MObj(s)
            m2.vals = dict(mobj.vals)
            bind(c, m2)
            fixed[id(c)] = dict(fixed[id(real)])
            unset[id(c)] = set(unset[id(real)])
            objs.append((c, m2))
            mon.count('copies')
        elif op == 'delete' and fs:
            # whatever it does, it must not change what is frozen
            f = rng.choice(fs)
            if sf or f.frozen:
                try:
                    delattr(real, f.name)
                except Exception:
                    pass
                mon.count('deletions')
        elif op == 'noise':
            noise.run(rng.randrange(100))
        elif op == 'dump':
            w.dump(real, mobj)
        mon.seen(op, sf, hit is not None, shape, len(objs) > 2, real is r.real)
        check(snap(real) == before or op == 'copy', f'{op} changed a field that must not change', before=before, after=snap(real), **info)
        # the frozen part of every object, every time
        for o, m in objs:
            now = snap(o)
            for n, s0 in fixed[id(o)].items():
                check(now.get(n) == s0, f'frozen field {n} changed', before=s0, after=now.get(n), op=op, **info)
            for n in unset[id(o)]:
                check(n not in now, f'frozen field {n} got a value after construction', op=op, **info)
    mon.sample(f'{spec!r}: {len(objs)} objects')
    w.on_step = None
    texpr.release(None)
