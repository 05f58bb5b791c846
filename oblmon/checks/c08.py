"""C08: construct(dump(s)) equals s, for built-in fields."""
import oblate

from .. import scale, texpr, values as V
from ..core import check
from ..world import World, check_verdict, cmp_values, vals_of

ID = 'C08'
QUICK, THOROUGH = 7000, 150000
RULE = ('schemas of built-in fields with equal load and dump keys, states reached by construction, updates and assignments (defaults valid for their field), dumped, '
        'reconstructed, compared type by type and dumped again, several rounds; distinct by (field kinds, set fields, path, depth)')
NEED = ['round_trips', 'nested', 'unset_kept', 'none_kept', 'after_update', 'after_assign', 'coerced', 'renamed', 'second_round', 'instance_given', 'defaulted', 'large']


def depth(ss):
    return 1 + max([depth(f.sub) for f in ss.all_fields() if f.sub] or [0])


def large(rng, mon):
    """Round trips of unusual size."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width, same_keys=True)
    d, vals, _ = scale.data(rng, n, 0, rng.choice([.3, .9]))
    a = n.cls(d)
    out = a.dump()
    try:
        b = n.cls(out)
    except oblate.ValidationError as e:
        check(False, 'a large dump does not load back', error=str(e)[-500:])
    scale.same_values(n, b, vals)
    check(b.dump() == out, 'a large dump differs after loading it back')
    mon.count('large')
    mon.seen('large', depth, width // 20)


def case(rng, mon, i, tier):
    if rng.random() < .015:
        large(rng, mon)
    w = World(rng)
    w.exact_twins = True
    w.subclass_values = False       # a dump does not tell the class of a nested schema
    prof = dict(custom=False, p_object=.4, p_keys=.6, key_modes=['data'], p_default=.25, valid_default=True, p_fmt=.1, validators=.25, vrate=rng.choice([0, 2]), p_frozen=.1, p_instr=.2, p_raw=0)
    ss = w.gen_schema(rng.choice([0, 1, 2, 3]), prof)
    r = w.construct(ss, w.gen_data(ss, rng, 0, p_opt=rng.choice([.2, .7, 1])))
    if not r.ok or r.merrs:
        mon.count('no_instance')
        return
    real, mobj = r.real, r.mobj
    path = set()
    for _ in range(rng.choice([0, 1, 2, 4])):
        if rng.random() < .5:
            rr = w.update(real, mobj, w.gen_data(ss, rng, rng.choice([0, 0, 0, 1]), p_opt=.5))
            if rr.ok:
                path.add('update')
        else:
            f = rng.choice(ss.all_fields())
            v = w.ok_value(f, rng)[0]
            rr = w.assign(real, mobj, f, v)
            if rr.ok:
                path.add('assign')
                mon.count('instance_given', isinstance(v, oblate.Schema))
    for p in path:
        mon.count(f'after_{p}')
    info = dict(schema=repr(ss), values=repr(mobj.vals), path=sorted(path))
    want = vals_of(real)
    cur, first = real, None
    for rnd in range(rng.choice([1, 2, 3])):
        d = cur.dump()
        if first is None:
            first = V.canon(d)
        check(V.canon(d) == first, 'dumping the reloaded schema gives other data', dump=repr(d), first=repr(first), **info)
        try:
            new = ss.cls(d)
        except oblate.ValidationError as e:
            check(False, 'dumped data of a valid schema do not load back', dump=repr(d), error=str(e), **info)
        got = vals_of(new)
        check(got == want, 'reloaded schema differs', changed={k: (want.get(k), got.get(k)) for k in set(want) | set(got) if want.get(k) != got.get(k)}, dump=repr(d), **info)
        mon.count('round_trips')
        mon.count('second_round', rnd > 0)
        cur = new
    allf = ss.all_fields()
    mon.count('nested', any(isinstance(v, V.MObj) for v in mobj.vals.values()))
    mon.count('unset_kept', any(f.name not in mobj.vals for f in allf))
    mon.count('defaulted', any(f.default for f in allf))
    mon.count('none_kept', any(v is None for v in mobj.vals.values()))
    mon.count('renamed', any(f.lk != f.name for f in allf))
    mon.count('coerced', any(f.p.get('strict') is False for f in allf))
    mon.seen(tuple(sorted(f.kind for f in allf)), tuple(sorted(path)), len(mobj.vals), depth(ss))
    mon.sample(f'{ss!r} {mobj.vals!r}')
    texpr.release(None)
