"""C12: validate_types: offending keys, flags, warnings, untouched arguments."""
import collections
import collections.abc
import types
import typing as t
import warnings

import oblate
from oblate import fields as F

from .. import texpr, values as V
from ..core import check

ID = 'C12'
QUICK, THOROUGH = 9000, 200000
RULE = ('type mappings of 0-8 keys and value mappings differing by extra, missing, mismatching and non-string keys x both flags x mapping classes; fresh unsupported '
        'generics with warnings enabled/disabled by attribute or by a replaced configuration; distinct by (numbers of each problem, flags, mapping class)')
NEED = ['raised', 'passed', 'extra', 'missing', 'mismatch', 'extra_ignored', 'missing_ignored', 'nonstring_key', 'unsupported', 'warned', 'silent', 'replaced_config', 'via_field', 'warned_once', 'no_generic', 'enabled_later', 'bulk', 'many_unsupported']

_n = [0]
_used = []
_bases = {}
T = t.TypeVar('T')


def fresh_generic(rng):
    """A generic type the library has not seen and does not document."""
    _n[0] += 1
    if rng.random() < .4:
        n = f'New{_n[0]}'
        return rng.choice([lambda: t.NewType(n, rng.choice([int, str])), lambda: t.TypeVar(n), lambda: t.TypeVar(n, bound=int), lambda: t.ForwardRef(n), lambda: types.new_class(n, (t.Protocol,), exec_body=lambda ns: ns.update(meth=lambda self: 1)),
                           lambda: t.ParamSpec(n), lambda: t.TypeAliasType(n, int) if hasattr(t, 'TypeAliasType') else t.NewType(n, int)])()
    r = rng.random()
    if r < .25 and _used:
        # a relative, or the namesake, of a generic used before
        old = rng.choice(_used)
        cls = types.new_class(old.__name__, (old[T],) if rng.random() < .5 else (t.Generic[T],))
    elif r < .5:
        cls = types.new_class(f'Box{_n[0]}', (t.Generic[T],))
        sub = types.new_class(f'Sub{_n[0]}', (cls[T],))
        _used[:] = [sub, *_used[:20]]
        _bases[sub] = cls
        return sub[int]
    elif r < .7 and _bases:
        # the base of a class used before, never used itself
        cls = _bases.popitem()[1]
    else:
        cls = types.new_class(f'Box{_n[0]}', (t.Generic[T],))
    _used[:] = [cls, *_used[:20]]
    return cls[rng.choice([int, str, t.Any, t.List[int]])]


BUILTIN_GENERICS = [t.FrozenSet[int], frozenset[str], t.Deque[int], t.Iterable[int], t.Type[int], t.Callable[[int], str], t.DefaultDict[str, int], t.Iterator[str], t.Collection[int],
                    t.AnyStr, t.NoReturn, t.Hashable, t.Callable, t.Iterable, t.Annotated[int, 'note'], t.Final, t.ClassVar[int], getattr(t, 'Self', t.AnyStr), getattr(t, 'LiteralString', t.AnyStr), t.Union[t.AnyStr, V.SubVow]]


def unsupported(mon, rng):
    g = fresh_generic(rng)
    v = V.anyval(rng, 1)
    v = 'x' if v is None else v
    form = rng.randrange(5)
    tp, val = [(g, v), (t.List[g], [v]), (t.Dict[str, g], {'a': v}), (t.Union[g, V.SubVow], v), (t.Tuple[int, g], (1, v))][form]
    enabled = rng.random() < .6
    how = rng.choice(['attr', 'replace'])
    old = oblate.config
    old_value = old.warn_unsupported_types
    entry = rng.choice(['validate_types', 'field'])
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': F.TypeExpr(tp), '__module__': 'm'})
    info = dict(tp=str(tp), enabled=enabled, how=how, entry=entry)

    def go():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if entry == 'field':
                    s = S({'v': val})
                    check(s.v is val, 'value of an unsupported type not stored', **info)
                else:
                    oblate.validate_types({'k': tp}, {'k': val})
            except (oblate.ValidationError, oblate.TypeValidationError) as e:
                check(False, 'a value of an unsupported generic type was validated', error=str(e), **info)
        return ws
    try:
        if how == 'attr':
            oblate.config.warn_unsupported_types = enabled
        else:
            old.warn_unsupported_types = not enabled
            oblate.config = oblate.GlobalConfig(warn_unsupported_types=enabled)
            mon.count('replaced_config')
        ws = go()
        if enabled:
            check(len(ws) >= 1 and all(issubclass(x.category, Warning) for x in ws), 'no warning for the first use of an unsupported type', got=len(ws), **info)
            mon.count('warned')
            ws = go()
            check(not ws, 'a second use of an unsupported type warns again', **info)
            mon.count('warned_once')
        else:
            check(not ws, 'a warning was issued although disabled', warning=[str(x.message) for x in ws], **info)
            mon.count('silent')
            if rng.random() < .5:
                # enabled afterwards: its first use from then on warns
                enabled = True
                if rng.random() < .5:
                    oblate.config.warn_unsupported_types = True
                else:
                    oblate.config = oblate.GlobalConfig()
                ws = go()
                check(len(ws) >= 1 and all(issubclass(x.category, Warning) for x in ws), 'no warning for the first use of an unsupported type after enabling warnings', got=len(ws), **info)
                mon.count('enabled_later')
        # the documented exceptions: other generics of typing are accepted too
        tp = val = None
        tp, val = rng.choice(BUILTIN_GENERICS), v
        entry = 'validate_types'
        ws = go()
        check(enabled or not ws, 'a warning was issued although disabled', **info)
    finally:
        oblate.config = old
        old.warn_unsupported_types = old_value
    mon.count('unsupported')
    mon.count('no_generic', t.get_origin(g) is None)
    mon.count('via_field', 'field' in info['entry'])
    mon.seen('unsupported', form, enabled, how, info['entry'], type(v).__name__)


def many_unsupported(mon, rng):
    """Each of many unsupported types warns once, however many others were used since."""
    gens = [fresh_generic(rng) for _ in range(rng.choice([5, 20, 70, 150, 300]))]
    old = oblate.config.warn_unsupported_types
    oblate.config.warn_unsupported_types = True

    def use(g):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                oblate.validate_types({'k': g}, {'k': 1})
            except oblate.TypeValidationError as e:
                check(False, 'a value of an unsupported generic type was validated', tp=str(g), error=str(e))
        return len(ws)
    try:
        for k, g in enumerate(gens):
            check(use(g) >= 1, 'no warning for the first use of an unsupported type', tp=str(g), others_before=k)
        for g in rng.sample(gens, len(gens)):
            check(not use(g), 'a second use of an unsupported type warns again', tp=str(g), types=len(gens))
            mon.count('many_unsupported')
    finally:
        oblate.config.warn_unsupported_types = old
    mon.seen('many unsupported', len(gens))


def bulk(rng, mon):
    """Mappings with many keys."""
    n = rng.choice([15, 40, 100, 300, 1200])
    kinds = [int, str, list, dict, t.List[int], t.Dict[str, int], t.Optional[str], t.Union[int, str], t.Tuple[int, str], t.Any]
    good = [1, 'x', [1], {'a': 1}, [1, 2], {'a': 1}, None, 'x', (1, 'a'), ...]
    bad = ['x', 1, {}, [], [1, 'x'], {'a': 'x'}, 1, [], (1, 2), None]
    p = rng.choice([.02, .3, .9])
    tps, vals, want = {}, {}, set()
    flags = {k: rng.random() < .5 for k in ('ignore_extra', 'ignore_missing')}
    which = rng.choice([{'extra'}, {'missing'}, {'mismatch'}, {'extra', 'missing', 'mismatch'}])
    for j in range(n):
        k = rng.choice([f'k{j}', f'k{j}', j, (j, 'k')])
        x = rng.randrange(len(kinds))
        what = rng.choice(sorted(which)) if rng.random() < p else 'fine'
        if what == 'mismatch' and x == 9:
            what = 'fine'
        if what != 'extra':
            tps[k] = kinds[x]
        if what != 'missing':
            vals[k] = bad[x] if what == 'mismatch' else good[x]
        if what == 'mismatch' or what in ('extra', 'missing') and not flags[f'ignore_{what}']:
            want.add(k)
    items = list(vals.items())
    rng.shuffle(items)
    vals = dict(items)
    try:
        oblate.validate_types(V.wrap_mapping(rng, tps), V.wrap_mapping(rng, vals), **flags)
        got = set()
    except oblate.TypeValidationError as e:
        got = set(e.errors)
    check(got == want, 'the reported keys of a large mapping are not the offending ones', n=n, flags=flags, lacking=sorted(map(str, want - got))[:5], too_many=sorted(map(str, got - want))[:5])
    mon.count('bulk')
    mon.seen('bulk', n, len(want) // 10, tuple(flags.values()), tuple(sorted(which)))


class StrKey(str):
    pass


TWIN = {0: lambda: False, 5: lambda: 5.0, 2.5: lambda: V.fractions.Fraction(5, 2), 'a': lambda: StrKey('a'), 'b': lambda: StrKey('b'), ('t', 1): lambda: ('t', True), frozenset([1]): lambda: frozenset([True])}
KEYS = ['a', 'b', 'c', '_d', '', 'x y', 'e', '__f__', 0, 5, None, ('t', 1), 2.5, True, b'k', V.Colour.RED, frozenset([1])]


def case(rng, mon, i, tier):
    if i % 6 == 0:
        unsupported(mon, rng)
        if rng.random() < .06:
            many_unsupported(mon, rng)
        return
    if rng.random() < .03:
        bulk(rng, mon)
    keys = rng.sample(KEYS if rng.random() < .4 else KEYS[:7], rng.randrange(0, 7))
    nodes = {k: texpr.gen(rng, rng.choice([0, 0, 1, 2])) for k in keys}
    vals = {}
    for k in rng.sample(keys, len(keys)):
        if rng.random() < .82:
            vals[k] = texpr.value_for(nodes[k], rng, rng.random() < .75)
    if rng.random() < .45:
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['zz', 'extra', '_zz', '__q', 7, ('q',), 'A', 'types', 'values', *KEYS])
            if k not in nodes:
                vals[k] = V.atom(rng)
        items = list(vals.items())
        rng.shuffle(items)
        vals = dict(items)
    if rng.random() < .3:
        # keys equal to, but other objects than, those of the types
        vals = {(TWIN[k]() if k in TWIN and type(k) is not bool and rng.random() < .7 else k): v for k, v in vals.items()}
        mon.count('equal_keys', any(k in TWIN for k in vals))
    kw = {}
    if rng.random() < .5:
        kw['ignore_extra'] = rng.random() < .7
    if rng.random() < .5:
        kw['ignore_missing'] = rng.random() < .7
    tps = V.wrap_mapping(rng, {k: n.tp for k, n in nodes.items()}, .35)
    vs = V.wrap_mapping(rng, vals, .35)
    mism = {k for k in vals if k in nodes and not nodes[k].match(vals[k])}
    extra = {k for k in vals if k not in nodes}
    miss = {k for k in nodes if k not in vals}
    want = set(mism)
    if not kw.get('ignore_extra'):
        want |= extra
    else:
        mon.count('extra_ignored', len(extra))
    if not kw.get('ignore_missing'):
        want |= miss
    else:
        mon.count('missing_ignored', len(miss))
    before = (list(tps.items()), V.canon(vals), list(vs), [id(x) for x in vs.values()])
    info = dict(types=repr({k: n.desc() for k, n in nodes.items()}), values=repr(vals)[:1500], kw=kw, expected=want, mapping=(type(tps).__name__, type(vs).__name__))
    for _ in range(2):
        try:
            res = oblate.validate_types(tps, vs, **kw)
        except oblate.TypeValidationError as e:
            check(want, 'TypeValidationError without an offending key', errors=e.errors, **info)
            check(set(e.errors) == want, 'the reported keys are not the offending ones', errors=e.errors, **info)
            check(all(isinstance(m, list) and m and all(isinstance(x, str) and x for x in m) for m in e.errors.values()), 'a key is reported without messages', errors=e.errors, **info)
            check(isinstance(e, oblate.OblateException) and isinstance(str(e), str), 'wrong exception', **info)
            mon.count('raised')
        else:
            check(not want, 'no error in spite of offending keys', **info)
            check(res is None, 'validate_types returned something', **info)
            mon.count('passed')
        check((list(tps.items()), V.canon(vals), list(vs), [id(x) for x in vs.values()]) == before, 'validate_types changed its arguments', **info)
    mon.count('extra', len(extra))
    mon.count('missing', len(miss))
    mon.count('mismatch', len(mism))
    mon.count('nonstring_key', any(not isinstance(k, str) for k in want))
    mon.seen(len(mism), len(extra), len(miss), tuple(sorted(kw.items())), type(tps).__name__, type(vs).__name__)
    mon.sample(f'{info["types"]} <- {vals!r} {kw}: {want}')
    texpr.release(None)
