"""C07: dump against the reference model, over selections, states and failing dumpers."""
import oblate
from oblate import fields as F

from .. import scale, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, World, check_report, check_verdict, cmp_values, fields_of

ID = 'C07'
QUICK, THOROUGH = 6000, 130000
RULE = ('random schemas (renamed dump keys, nested, inherited, custom dumpers that transform or fail) in states reached by construction, updates and assignments, '
        'dumped with random selections; distinct by (selection form, unset fields, verdict, failing kinds, nested)')
NEED = ['dumped', 'dump_failed', 'include', 'exclude', 'both_refused', 'none_dumped', 'unset_skipped', 'nested_dumped', 'nested_failed', 'renamed', 'after_update', 'empty_selection', 'large', 'texts']


def snap(real):
    return {f.name: (id(x), V.canon(x)) for f, x in fields_of(real)[1]}


def selection(rng, ss):
    names = [f.name for f in ss.all_fields()]
    pick = rng.sample(names, rng.randrange(len(names) + 1))
    if rng.random() < .3:
        pick.append(rng.choice(['nope', 'zz', *[f.lk for f in ss.all_fields() if f.lk not in names and f.lk], *[f.dk for f in ss.all_fields() if f.dk not in names and f.dk]]))
    if rng.random() < .3 and pick:
        pick.append(pick[0])
    rng.shuffle(pick)
    return rng.choice([list, list, tuple, set, frozenset, dict.fromkeys])(pick)


def texts(rng, mon):
    """A string is a sequence of names, too: of its characters."""
    names = rng.sample(['a', 'b', 'ab', 'ba', 'c', 'abc', 'é'], rng.choice([2, 3, 5]))
    cls = type(oblate.Schema)('T', (oblate.Schema,), {n: F.Any(required=False, **({'load_key': f'L{n}'} if rng.random() < .3 else {})) for n in names} | {'__module__': 'm'})
    vals = {n: j for j, n in enumerate(names) if rng.random() < .8}
    x = cls({})
    for n, v in vals.items():
        setattr(x, n, v)
    text = rng.choice(names + ['', 'abc', 'aab'])
    for how, want in (('include', {n: v for n, v in vals.items() if n in list(text)}), ('exclude', {n: v for n, v in vals.items() if n not in list(text)})):
        for s in (text, V.StrSub(text)):
            got = x.dump(**{how: s})
            check(got == want, 'dumped data differ from the model', names=names, selection={how: s}, got=got, expected=want)
    mon.count('texts')


def large(rng, mon):
    """Dumps of unusual size."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width, dumpers=rng.random() < .5)
    d, vals, _ = scale.data(rng, n, 0, rng.choice([.3, .9]), p_dump=rng.choice([0, 0, .02, .3]))
    a = n.cls(d)
    kw = {}
    if rng.random() < .5:
        names = [f.name for f in n.fields if rng.random() < .7]
        kw[rng.choice(['include', 'exclude'])] = names
    chosen = [f.name for f in n.fields if f.name in kw.get('include', [f.name]) and f.name not in kw.get('exclude', [])]
    out, rep = scale.dumped(n, {k: v for k, v in vals.items() if k in chosen})
    try:
        got = a.dump(**kw)
    except oblate.ValidationError as e:
        check(rep, 'a large dump failed', error=str(e)[-500:])
        scale.same_report(e.raw(), rep)
    else:
        check(not rep, 'a large dump succeeded although dumpers fail', expected=repr(rep)[:500])
        check(got == out, 'a large dump differs', got=repr(got)[:1000], expected=repr(out)[:1000])
    scale.same_values(n, a, vals)
    mon.count('large')
    mon.seen('large', depth, width // 20, bool(rep), *kw)


def case(rng, mon, i, tier):
    if rng.random() < .015:
        large(rng, mon)
    if i % 8 == 0:
        texts(rng, mon)
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 0, 3], dump_rates=rng.choice([[0], [0, 0, 4], [0, 6, 16]]), p_object=.4, p_keys=.7, p_fmt=.3, vrate=rng.choice([0, 0, 2]),
                p_inherit=.35, p_frozen=.1, p_default=.3)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2, 3]), prof)
    r = w.construct(ss, w.gen_data(ss, rng, 0, p_opt=rng.choice([0, .5, 1])))
    if not r.ok or r.merrs:
        mon.count('no_instance')
        return
    real, mobj = r.real, r.mobj
    steps = 0
    for _ in range(rng.choice([2, 3, 4])):
        q = rng.random()
        if q < .35:
            rr = w.update(real, mobj, w.gen_data(ss, rng, rng.choice([0, 0, 1]), p_opt=.5))
            check_verdict(rr)
            steps += rr.ok
        elif q < .6:
            f = rng.choice(ss.all_fields())
            rr = w.assign(real, mobj, f, w.ok_value(f, rng)[0])
            check_verdict(rr)
            steps += rr.ok
        sel = rng.choice(['all', 'all', 'include', 'exclude', 'both'])
        kw = {}
        if sel in ('include', 'both'):
            kw['include'] = selection(rng, ss)
        if sel in ('exclude', 'both'):
            kw['exclude'] = selection(rng, ss)
        before = snap(real)
        info = dict(schema=repr(ss), kw=repr(kw), values=repr(mobj.vals))
        if sel == 'both':
            try:
                real.dump(**kw)
            except TypeError:
                mon.count('both_refused')
            except BaseException as e:
                check(False, f'include and exclude together raised {type(e).__name__}', **info)
            else:
                check(False, 'include and exclude together accepted', **info)
            check(snap(real) == before, 'dump changed the schema', **info)
            continue
        kept = {k: V.canon(v) for k, v in kw.items()}
        r = w.dump(real, mobj, **kw)
        v = check_verdict(r)
        check(snap(real) == before, 'dump changed the schema', before=before, after=snap(real), r=r)
        cmp_values(real, mobj, 'after dump:', r=r)
        check({k: V.canon(x) for k, x in kw.items()} == kept, 'dump changed its selection argument', r=r)
        chosen = [f for f in ss.all_fields() if ('include' not in kw or f.name in kw['include']) and ('exclude' not in kw or f.name not in kw['exclude'])]
        unset = [f for f in chosen if f.name not in mobj.vals]
        mon.count(sel)
        if v == 'ok':
            mon.count('dumped')
            check(type(r.real) is dict, 'dump did not return a dict', r=r)
            check(V.canon(r.real) == V.canon(r.mvalue), 'dumped data differ from the model', r=r, real=repr(r.real), expected=repr(r.mvalue))
            for ev in r.events:
                if ev.kind == 'dump' and ev.schema is real:
                    check(ev.ctx.value is real.get_value_for(ev.spec.name) and ev.value is ev.ctx.value, 'the dumper got another value than the current one', r=r)
            r2 = w.dump(real, mobj, **kw)
            check(r2.ok and r2.real is not r.real and V.canon(r2.real) == V.canon(r.real), 'a second dump differs', r=r2)
            # the result is the caller's: changing it changes nothing
            r.real.clear()
            r.real['junk'] = 1
            check(snap(real) == before, 'the dumped dictionary is shared with the schema', r=r)
            r3 = w.dump(real, mobj, **kw)
            check(r3.ok and V.canon(r3.real) == V.canon(r2.real), 'changing a dumped dictionary changes later dumps', r=r3)
            mon.count('unset_skipped', len(unset))
            mon.count('empty_selection', not chosen)
            for f in chosen:
                if f.name in mobj.vals:
                    x = mobj.vals[f.name]
                    mon.count('none_dumped', x is None and f.kind not in ('custom', 'strip'))
                    mon.count('nested_dumped', f.kind == 'object' and x is not None)
                    mon.count('renamed', f.dk != f.name)
        else:
            mon.count('dump_failed')
            check_report(r)
            mon.count('nested_failed', any(e.sub for e in r.merrs))
        mon.count('after_update', steps > 0)
        mon.seen(sel, len(unset), v, tuple(sorted({e.origin.split()[0] for e in r.merrs})), len(r.merrs), any(f.kind == 'object' for f in chosen), steps > 0)
        mon.sample(f'{ss!r}.dump({kw!r}) of {mobj.vals!r}')
    texpr.release(None)
