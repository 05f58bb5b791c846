"""C05: update and assignment agree with construction, and touch only the named fields."""
import collections

import oblate

from .. import scale, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, SENT, World, check_report, check_verdict, cmp_values, fields_of, vals_of

ID = 'C05'
QUICK, THOROUGH = 6000, 130000
RULE = ('the same (field, value) pair is pushed through construction, update and assignment on instances in random states and the three outcomes are compared with '
        'each other and with the model; multi-field updates against the model; distinct by (field kind, value type, outcome, failure origins, prior state)')
NEED = ['triples', 'accepted', 'rejected', 'multi_ok', 'multi_bad', 'unset_before', 'raw_and_load_failures', 'update_ignored_extra', 'update_without_required', 'held_changed', 'none_with_failing', 'large_ok', 'large_bad']


def outcome(fn, key):
    """('ok', value canon) or ('err', multiset of messages of the key)."""
    try:
        return ('ok', fn())
    except oblate.ValidationError as e:
        raw = e.raw()
        check(set(raw) == {key}, 'other keys fail than the one tried', raw=raw, key=key)
        return ('err', sorted(repr(V.canon(m)) for m in raw[key]))


def mixed(w, ss, real, mobj, rng, mon):
    """Every kind of value for many fields at once: None, values that fail, the very objects the fields hold (changed meanwhile)."""
    d = {}
    fs = [f for f in ss.all_fields() if not f.frozen]
    for f in rng.sample(fs, rng.randrange(len(fs) + 1)):
        q = rng.random()
        held = real.get_value_for(f.name, None)
        if isinstance(held, oblate.Schema) and q < .6:
            sub = type(held).__monspec__
            for g in rng.sample(sub.all_fields(), min(2, len(sub.all_fields()))):
                try:
                    setattr(held, g.name, w.ok_value(g, rng)[0])
                except oblate.OblateException:
                    pass
                else:
                    mon.count('held_changed')
            mobj.vals[f.name] = held
            d[f.lk] = held
        elif q < .3:
            d[f.lk] = None
            mon.count('none_with_failing', len(d) > 1)
        elif q < .45:
            d[f.lk] = held
        elif q < .75:
            d[f.lk] = w.fail_value(f, rng)[0]
        else:
            d[f.lk] = w.ok_value(f, rng)[0]
    return d


def large(rng, mon):
    """Updates of unusual size."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width)
    d0, vals, _ = scale.data(rng, n, 0, rng.choice([0, .5]))
    a = n.cls(d0)
    for _ in range(2):
        d, new, rep = scale.data(rng, n, rng.choice([0, 0, .02, .3]), rng.choice([.3, .9]), update=True)
        for k in [k for k in d if k in n.by and rng.random() < .3]:
            rep.pop(k, None)
            new.pop(n.by[k].name, None)
            del d[k]
        try:
            a.update(d)
        except oblate.ValidationError as e:
            check(rep, 'a large valid update is rejected', error=str(e)[-500:])
            scale.same_report(e.raw(), rep)
            mon.count('large_bad')
        else:
            check(not rep, 'a large invalid update is accepted', expected=repr(rep)[:500])
            vals = {**vals, **new}
            mon.count('large_ok')
        scale.same_values(n, a, vals)
        mon.seen('large', depth, width // 20, bool(rep))


def case(rng, mon, i, tier):
    if rng.random() < .015:
        large(rng, mon)
    w = World(rng)
    prof = dict(err_kinds=[k for k in ERR_KINDS], load_rates=[0, 0, 4, 9], p_object=.3, p_frozen=.05, p_fmt=.4, p_keys=.6, vrate=rng.choice([0, 3, 6, 9]), validators=.7, p_same=.25)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    base = w.gen_data(ss, rng, 0, p_opt=rng.choice([0, .5, 1]))
    r0 = w.construct(ss, base)
    if not r0.ok or r0.merrs:
        mon.count('no_instance')
        return
    fs = [f for f in ss.all_fields() if not f.frozen]
    for _ in range(rng.choice([2, 4])):
        if not fs:
            break
        f = rng.choice(fs)
        v = w.fail_value(f, rng)[0] if rng.random() < .5 else w.ok_value(f, rng)[0] if rng.random() < .6 else w.bad_value(f, rng)
        d = dict(base)
        d[f.lk] = v
        a, b = ss.cls(base), ss.cls(base)
        unset = a.get_value_for(f.name, SENT) is SENT
        mon.count('unset_before', unset)
        others = {k: x for k, x in vals_of(a).items() if k != f.name}

        def kept(s):
            x = s.get_value_for(f.name)
            return V.canon(x), x is v     # what is stored unchanged is the object given

        def do_construct():
            s = ss.cls(d)
            return kept(s)

        def do_update():
            a.update({f.lk: v})
            return kept(a)

        def do_assign():
            setattr(b, f.name, v)
            return kept(b)
        info = dict(schema=repr(ss), field=f.name, value=repr(v), base=repr(dict(base)))
        o1, o2, o3 = outcome(do_construct, f.lk), outcome(do_update, f.lk), outcome(do_assign, f.lk)
        check(o1 == o2, 'update differs from construction for the same value', construct=o1, update=o2, **info)
        check(o1 == o3, 'assignment differs from construction for the same value', construct=o1, assign=o3, **info)
        for s, op in ((a, 'update'), (b, 'assignment')):
            now = {k: x for k, x in vals_of(s).items() if k != f.name}
            check(now == others, f'{op} of one field touched another field', before=others, after=now, **info)
        mon.count('triples')
        mon.count('accepted' if o1[0] == 'ok' else 'rejected')
        # and the same with the model
        r = w.construct(ss, d)
        check_verdict(r)
        if o1[0] == 'err':
            check_report(r)
            kinds = {e.origin.split()[0] for e in r.merrs}
            mon.count('raw_and_load_failures', 'raw' in kinds and len(kinds - {'raw', 'val'}) > 0)
        mon.seen(f.kind, type(v).__name__, o1[0], tuple(sorted(e.origin.split()[0] for e in r.merrs)), unset)
    real, mobj = r0.real, r0.mobj
    for _ in range(rng.choice([2, 3])):
        d = w.gen_data(ss, rng, rng.choice([0, 0, 0, 1, 2]), p_opt=rng.choice([.2, .6]))
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items[:rng.randrange(len(items) + 1)])
        if rng.random() < .5:
            d = mixed(w, ss, real, mobj, rng, mon)
        kw = {}
        if rng.random() < .4:
            kw['ignore_extra'] = rng.random() < .7
        had = {n: id(x) for n, x in ((f.name, x) for f, x in fields_of(real)[1])}
        r = w.update(real, mobj, V.wrap_mapping(rng, d, .3), **kw)
        v = check_verdict(r)
        cmp_values(real, mobj, 'update:', r=r)
        if v == 'ok':
            mon.count('multi_ok')
            check(r.real is None, 'update returned something', r=r)
            named = {f.name for f in ss.all_fields() if f.lk in d}
            now = {f.name: id(x) for f, x in fields_of(real)[1]}
            check({k: x for k, x in now.items() if k not in named} == {k: x for k, x in had.items() if k not in named}, 'an update replaced a field that it does not name', r=r)
            mon.count('update_ignored_extra', any(k not in ss.by_key() for k in d))
            mon.count('update_without_required', any(f.req and f.lk not in d for f in ss.all_fields()))
            mon.sample(f'{ss!r}.update({d!r})')
        elif v == 'errors':
            mon.count('multi_bad')
            check_report(r)
        check(not any(e.kind in ('default',) and e.schema is real for e in r.events), 'an update called a default', r=r)
    texpr.release(None)
