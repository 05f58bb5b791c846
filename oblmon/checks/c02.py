"""C02: the complete report of failed constructions versus the reference model."""
import oblate

from .. import scale, texpr
from ..core import check
from ..world import ERR_KINDS, World, check_report, check_verdict

ID = 'C02'
QUICK, THOROUGH = 9000, 200000
RULE = ('random nested schemas with recording validators of all exception kinds x inputs with 1-9 simultaneous defects; each report compared, key by key and '
        'message by message at every depth, with the model; distinct by (set of failure origins, nesting of failures, number of failing keys)')
NEED = ['reports', 'nested_reports', 'deep_reports', 'unknown', 'required', 'none', 'multi_failure_values', 'large']


def depth_of(es):
    return 1 + max([depth_of(e.sub) for e in es if e.sub] or [0])


def walk(es):
    for e in es:
        yield e
        if e.sub:
            yield from walk(e.sub)


def large(rng, mon):
    """Hundreds of failures, and failures at the end of long chains."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width)
    d, vals, rep = scale.data(rng, n, rng.choice([.01, .05, .3, .9]), p_unknown=rng.choice([None, 0, 1]))
    try:
        n.cls(d)
    except oblate.ValidationError as e:
        scale.same_report(e.raw(), rep)
        mon.count('large')
        mon.seen('large', depth, width // 20, len(rep) // 20)
    else:
        check(not rep, 'large invalid data are accepted', depth=depth, width=width, expected=repr(rep)[:500])


def case(rng, mon, i, tier):
    if rng.random() < .02:
        large(rng, mon)
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 3, 6, 16], p_fmt=.6, p_object=.35, p_large=.01, vrate=rng.choice([2, 5, 9, 16]) if rng.random() < .7 else 3)
    ss = w.gen_schema(rng.choice([0, 1, 2, 3]), prof)
    for k in range(rng.choice([2, 3, 4])):
        data = w.gen_data(ss, rng, rng.choice([0, 1, 1, 2, 3, 5, 9]), p_opt=rng.choice([.3, .7, 1]))
        kw = {}
        if rng.random() < .25:
            kw['ignore_extra'] = rng.random() < .5
        r = w.construct(ss, data, **kw)
        if check_verdict(r) != 'errors':
            mon.count('accepted')
            continue
        mon.count('reports')
        check_report(r)
        es = list(walk(r.merrs))
        mon.count('failures_matched', len(es))
        d = depth_of(r.merrs)
        if d > 1:
            mon.count('nested_reports')
        if d > 2:
            mon.count('deep_reports')
        for e in es:
            mon.count('unknown', e.origin == 'unknown')
            mon.count('required', 'REQUIRED' in e.origin)
            mon.count('none', 'NONE' in e.origin)
        keys = [(id(e.mo), repr(e.key)) for e in es]
        mon.count('multi_failure_values', len(keys) - len(set(keys)))
        mon.seen(tuple(sorted({e.origin.split()[0] for e in es})), d, len(set(keys)))
        mon.sample(f'{ss!r} <- {data!r}: {r.merrs!r}')
        # a second report of the same failing data is the same
        if rng.random() < .15:
            r2 = w.construct(ss, data, **kw)
            check(not r2.ok and r2.exc.raw() == r.exc.raw(), 'the same failing input gives different reports', r=r)
    texpr.release(None)
