"""C14: built-in validators against their documented definitions."""
import collections
import decimal
import fractions
import re
import types

import oblate
from oblate import fields as F, validate as VD

from .. import values as V
from ..core import check
from ..world import MyAE, MyFE

ID = 'C14'
QUICK, THOROUGH = 8000, 200000
RULE = ('random Range/Range.from_standard/Length/Regex/Exclude/Or instances (bounds of any sign and order, steps, all match modes and flags, unhashable exclusions, nested Or), '
        'values at and around every boundary, several validators per field, through construction, update, assignment and nested schemas; distinct by (validator, parameters class, verdict, value class)')
NEED = ['range', 'from_standard', 'length', 'regex', 'exclude', 'or', 'accepted', 'rejected', 'boundary', 'nested_or', 'several', 'update', 'assign', 'fullmatch', 'search', 'step', 'messages', 'converted']


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __repr__(self):
        return f'Sized({self.n})'


PATTERNS = ['a', 'ab+c', '^a.c$', 'a|ab', r'\d{2,4}', r'[a-z]*', r'(?P<x>\w+)@\1', r'^$', r'x*', '.', r'a.b', r'\bfoo\b', r'foo$', r'^b', r'(?i)hello', r'é+', '[^a]+', r'a\Z', '', 'a b', r'foo # a comment', r' \d + ']
TEXTS = ['', 'a', 'ab', 'abc', 'abbbc', 'ABC', 'xabc', 'abcx', 'a\n', 'a\nb', 'b', 'aa\nb', '12', '12345', '1', 'x12y', 'foo', 'foo bar', 'barfoo', 'foo\n', 'Hello', 'HELLO', 'éé', 'É', 'xx@xx', 'q@q',
         'a b', 'zabc\n', '\n', 'b\na', 'a\rc', 'a\u2028c', 'ac', '{value}', 'K']


FAILURES = [ValueError, AssertionError, oblate.FieldError, lambda m: ValueError(), lambda m: AssertionError(), lambda m: oblate.FieldError({'a': m}), lambda m: oblate.FieldError([m, m]),
            lambda m: oblate.FieldError([]), lambda m: oblate.FieldError(None, state=1), lambda m: oblate.FieldError({'a': [oblate.FieldError(m)]}), lambda m: MyFE(m), lambda m: UnicodeError(m),
            lambda m: MyAE(m, 2), lambda m: ValueError({'a': 1})]


class Conv(F.Any):
    """What is loaded is another value than what is given."""
    def value_load(self, value, context):
        return value.content


class Box:
    def __init__(self, content):
        self.content = content

    def __len__(self):
        return 0


val_messages = {}        # id of a Regex -> (itself, message of a value)


# equal, although of different types
EQUAL = [(b'a', bytearray(b'a')), ({1, 2}, frozenset({2, 1})), ({'k': 1}, collections.OrderedDict(k=1)), ({'k': 1}, V.MyMapping({'k': 1})), ({'k': 1}, V.DictSub(k=1)), ((1, 'x'), V.Pair(1, 'x')), ([1], V.ListSub([1])),
         (2.5, decimal.Decimal('2.5')), (0.5, fractions.Fraction(1, 2)), (1, complex(1, 0)), (3, V.Colour.RED), ('a', V.StrSub('a')), (4, V.IntSub(4)), (2.5, V.FloatSub(2.5)), (1, True), (0.0, -0.0), (0, False),
         (range(0), range(5, 5)), (b'ab', memoryview(b'ab')), ({1}, {'a': 1, 1: 2}.keys() - {'a'}), ({'k': 1}, types.MappingProxyType({'k': 1})), ({'k': 1}, collections.Counter('k')),
         (frozenset(), V.SetSub()), (10 ** 20, 1e20), (dict.fromkeys('ab'), dict.fromkeys('ba')), ([[1]], [V.ListSub([True])]), ({'a': 1}.items(), {('a', 1)})]


def ints(rng, *around):
    out = [a + d for a in around for d in (-1, 0, 1)]
    out += [rng.randrange(-20, 20), 0, 10 ** 30, -10 ** 30]
    if max(map(abs, around)) > 1000:
        return out  # membership of other int types walks the range
    return out + [ V.IntSub(rng.randrange(-5, 9)), True, False, V.Colour.RED]


def make(rng, kind, depth=0, big_ok=False):
    """(validator, predicate, values, label)."""
    if kind == 'range':
        big = rng.choice([1, 1, 1, 10 ** 20]) if big_ok else 1
        lb, ub = rng.randrange(-6, 10) * big, rng.randrange(-6, 12) * big
        q = rng.random()
        if q < .35:
            return VD.Range(ub), lambda v: 0 <= v <= ub, ints(rng, 0, ub), ('ub', ub < 0, ub == 0)
        if q < .5:
            lb = ub
        return VD.Range(lb, ub), lambda v: lb <= v <= ub, ints(rng, lb, ub), ('lbub', lb > ub, lb == ub)
    if kind == 'from_standard':
        a, b, s = rng.randrange(-8, 10), rng.randrange(-8, 15), rng.choice([1, 1, 2, 3, 5, -1, -2, -3])
        if big_ok and rng.random() < .3:
            # too long to enumerate: membership by arithmetic
            a, b, s = rng.choice([0, 5, -3, 2 ** 64, -10 ** 25]), rng.choice([2 ** 70, 10 ** 30, 10 ** 12]), rng.choice([1, 2, 3, 7, 2 ** 33, -2])
            if s < 0:
                a, b = b, a
            n = max(0, -(-(b - a) // s))
            ks = [0, 1, n // 2, n - 1, n, -1, n // 3] if n else [0, 1]
            vals = [a + k * s + d for k in ks for d in (-1, 0, 1)] + [2 ** 63, 2 ** 63 - 1, -2 ** 63, 2 ** 65 + 1, 10 ** 19]
            return (VD.Range.from_standard(range(a, b, s)), lambda v: (a <= v < b if s > 0 else b < v <= a) and (v - a) % abs(s) == 0, rng.sample(vals, min(len(vals), 14)), ('std', s, 'huge'))
        r = rng.choice([range(a, b), range(b), range(a, b, s), range(a, b, s), range(a, b, s)])
        members = set(r)
        return VD.Range.from_standard(r), lambda v: int(v) in members, ints(rng, a, b) + list(r)[:3] + list(r)[-2:], ('std', r.step, len(r) > 0)
    if kind == 'length':
        lo, hi = rng.choice([(rng.randrange(0, 5), rng.randrange(0, 7)), (rng.randrange(0, 5), rng.randrange(0, 7)), (rng.randrange(0, 70), rng.randrange(0, 90)), (rng.randrange(0, 300), rng.randrange(0, 2000))])
        mode = rng.choice(['min', 'max', 'both', 'exact', 'same'])
        kw, pred = {'min': (dict(min=lo), lambda n: n >= lo), 'max': (dict(max=hi), lambda n: n <= hi), 'both': (dict(min=lo, max=hi), lambda n: lo <= n <= hi),
                    'exact': (dict(exact=hi), lambda n: n == hi), 'same': (dict(min=lo, max=lo), lambda n: n == lo)}[mode]
        vals = [rng.choice([' ' * lo, '\x00' * hi, 'a\x00', ' a ', 'e\u0301', '\u200b' * lo, '\U0001f468\u200d\U0001f469', '\n' * hi, '\ud800', ''])]
        for n in {max(0, lo - 1), lo, lo + 1, max(0, hi - 1), hi, hi + 1, 0, rng.randrange(40)}:
            vals.append(rng.choice([lambda: rng.choice(['é', 'é', 'x', '日', '😀', '\ud800', ' ', 'e\u0301'[:1], '\x00']) * n, lambda: 'ab日本😀é\n '[:n] + 'z' * (n - 8), lambda: [0] * n, lambda: {i: i for i in range(n)}, lambda: dict.fromkeys([None, '', 0, False, 'a', (), *range(2, n)][:n], 1) if n < 4 else {None: 1, **{i: 1 for i in range(n - 1)}}, lambda: [None, *'abc', None, '', 0][:n] + [None] * (n - 7), lambda: set(range(n)), lambda: tuple(range(n)), lambda: Sized(n), lambda: b'x' * n, lambda: ('é' * n).encode()[:n], lambda: bytearray(('日' * n).encode()[:n]), lambda: b'\xff\xfe' * (n // 2) + b'\x00' * (n % 2), lambda: {i: None for i in range(n)}, lambda: [None, 0, ''] * n, lambda: (...,) * n, lambda: {f'k{i}': rng.choice([None, 0, '', i]) for i in range(n)},
                                    lambda: V.MyMapping({i: 1 for i in range(n)}), lambda: range(n), lambda: V.ListSub([None] * n), lambda: V.FalseList([0] * n), lambda: V.FalseText('x' * n), lambda: V.FalseList(('ab' * n)[:n])])())
        return VD.Length(**kw), lambda v: pred(len(v)), vals, (mode, lo > hi, hi == 0, lo == 0)
    if kind == 'regex':
        p = rng.choice(PATTERNS)
        flags = rng.choice([0, 0, 0, re.I, re.M, re.S, re.I | re.M, re.M | re.S, re.A, re.X, re.X | re.I, re.X | re.M | re.S, re.A | re.I])
        mode = rng.choice(['match', 'fullmatch', 'search'])
        kw = {}
        if mode == 'fullmatch':
            kw['full_match'] = True
        elif mode == 'search':
            kw['search'] = True
        if rng.random() < .3:
            kw['fail_message'] = rng.choice(['no {value} here', 'bad', '{pattern} / {value}', '{{}}', '{value!r} no {pattern.pattern}', '{value:>9}|', '{pattern.flags}{value}{value}', ' {value}\n', '{{value}} {value}'])
        rx = re.compile(p, flags)
        msg = kw.get('fail_message')
        if rng.random() < .3:
            val = VD.Regex(rx, **kw)
        elif rng.random() < .5:
            val = VD.Regex(p, flags, **kw)
        else:
            val = VD.Regex(p, flags=flags, **kw)
        if msg is not None:
            val_messages[id(val)] = (val, lambda v: msg.format(value=v, pattern=rx))
        texts = rng.sample(TEXTS, 10) + [V.StrSub(rng.choice(TEXTS)), V.FalseText(rng.choice(TEXTS))]
        if p not in (r'[a-z]*', r'(?P<x>\w+)@\1') and rng.random() < .2:
            # long texts: what decides can be far away
            n = rng.choice([300, 1500, 5000, 70000])
            texts += [rng.choice(TEXTS) * (n // 4) + rng.choice(TEXTS), 'a' * n + rng.choice(['b', 'foo', '\nb', '12', '']), '\n' * n + rng.choice(['hello', 'foo', 'b', 'abc', ''])]
        return val, lambda v: getattr(re.compile(p, flags), mode)(v) is not None, texts, (mode, p, int(flags))
    if kind == 'exclude':
        pool = [1, 0, 'a', '', None, 2.5, {}, [], set(), (), 0.0, b'', V.Colour.RED, range(0), {'': None}, (1, 2), [1], {'k': 1}, {1, 2}, 'abc', -1, b'a', V.Vow(1), V.Shape.DOT, True]
        ex = rng.sample(pool, rng.choice([1, 1, 2, 3, 5]))
        if rng.random() < .4:
            near = rng.sample(EQUAL, 3)
            if rng.random() < .5:
                near = [(b, a) for a, b in near]
            ex += [near[0][0]]
            pool = pool + [x for pr in near for x in pr] + [near[0][1]] * 4
            rng.shuffle(ex)
        vals = rng.sample(pool, 6) + [1.0, '1', [1, 2], [1], {'k': 1}, {}, V.SubVow(1), V.Vow(1), V.StrSub('abc'), 'ab', frozenset({1, 2}), V.Tagged(1)] + list(ex)
        return VD.Exclude(*ex), lambda v: not any(v == e for e in ex), [v for v in vals if v is not None], ('ex', len(ex), tuple(sorted(type(e).__name__ for e in ex)))
    if kind == 'or':
        sub = rng.choice(['range', 'regex', 'length', 'exclude', 'from_standard', 'fn'])
        parts = []
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            if depth < 2 and rng.random() < .25:
                m = make(rng, 'or', depth + 1)
                parts.append(m)
            elif sub == 'fn' or rng.random() < .3:
                k = rng.randrange(5)
                err = rng.choice(FAILURES)
                good = rng.random() < .6

                def fn(schema, value, ctx, good=good, err=err, k=k):
                    if (V.chash('or', k, repr(value)[:50]) % 3 > 0) != good:
                        raise err('no')
                    return rng.choice([None, False, True, 0])
                parts.append((fn, lambda v, good=good, k=k: (V.chash('or', k, repr(v)[:50]) % 3 > 0) == good, [], 'fn'))
            else:
                parts.append(make(rng, sub, depth))
        vals = [v for p in parts for v in p[2]] or [1, 'a', [1]]
        if sub == 'fn':
            vals += [rng.randrange(99), 'zz']
        # every validator of an Or gets values of the kind it documents
        vals = [v for v in vals if compatible(parts, v)]

        def pred(v):
            return any(p[1](v) for p in parts)
        pred.parts = parts
        return VD.Or(*[p[0] for p in parts]), pred, vals, ('or', sub, len(parts), depth)
    raise KeyError(kind)


def compatible(parts, v):
    for p in parts:
        val = p[0]
        if isinstance(val, VD.Range) and not isinstance(v, int):
            return False
        if isinstance(val, VD.Regex) and (not isinstance(v, str) or len(v) > 600 and isinstance(p[3], tuple) and '\\1' in p[3][1]):
            return False  # a search for that pattern takes time quadratic in the length
        if isinstance(val, VD.Length) and not hasattr(v, '__len__'):
            return False
        if isinstance(val, VD.Or) and not compatible(p_parts(p), v):
            return False
    return True


def p_parts(p):
    return getattr(p[1], 'parts', [])


def case(rng, mon, i, tier):
    val_messages.clear()
    kind = rng.choice(['range', 'from_standard', 'length', 'regex', 'exclude', 'or'])
    n = rng.choice([1, 1, 1, 2, 3])
    ms = [make(rng, kind, big_ok=n == 1) for _ in range(n)]
    vals = [v for m in ms for v in m[2] if compatible(ms, v)]
    mon.count('several', n > 1)
    conv = rng.random() < .4
    mon.count('converted', conv)
    cls = Conv if conv else F.Any
    wrap = Box if conv else lambda v: v
    if rng.random() < .5:
        fld = cls(validators=[m[0] for m in ms], required=False)
    else:
        fld = cls(required=False)
        for m in ms:
            fld.add_validator(m[0], **({'raw': False} if rng.random() < .3 else {}))
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': fld, '__module__': 'm'})
    O = type(oblate.Schema)('O', (oblate.Schema,), {'s': F.Object(S), '__module__': 'm'})
    rng.shuffle(vals)
    for v in vals[:14]:
        if v is None:
            continue
        verdicts = [bool(m[1](v)) for m in ms]
        want = all(verdicts)
        path = rng.choice(['construct', 'construct', 'update', 'assign', 'nested'])
        info = dict(validators=[(type(m[0]).__name__, m[3]) for m in ms], value=repr(v)[:300], expected=verdicts, path=path)
        try:
            if path == 'construct':
                s = S({'v': wrap(v)})
            elif path == 'nested':
                s = O({'s': {'v': wrap(v)}}).s
            else:
                s = S({})
                s.update({'v': wrap(v)}) if path == 'update' else setattr(s, 'v', wrap(v))
        except oblate.ValidationError as e:
            check(not want, 'a built-in validator rejects a value it documents as accepted', error=str(e), **info)
            raw = e.raw()
            raw = raw['s'][0] if path == 'nested' else raw
            check(set(raw) == {'v'} and len(raw['v']) == verdicts.count(False) and all(isinstance(x, str) and x for x in raw['v']),
                  'rejections are not reported once each with a non-empty message', raw=raw, **info)
            for m, ok in zip(ms, verdicts):
                if not ok and id(m[0]) in val_messages:
                    text = val_messages[id(m[0])][1](v)
                    check(text in raw['v'], 'the failure message of a Regex is not the one given, formatted', message=text, raw=raw, **info)
                    mon.count('messages')
        else:
            check(want, 'a built-in validator accepts a value it documents as rejected', **info)
            check(s.v is v, 'a validator changed the value', **info)
        mon.count('accepted' if want else 'rejected')
        mon.count(path)
        mon.count(kind)
        mon.seen(kind, tuple(m[3] for m in ms), tuple(verdicts), type(v).__name__)
        mon.count('boundary', kind in ('range', 'length') and want)
    for m in ms:
        mon.count('fullmatch', m[3][0] == 'fullmatch')
        mon.count('search', m[3][0] == 'search')
        mon.count('step', m[3][0] == 'std' and m[3][1] != 1)
        mon.count('nested_or', m[3][0] == 'or' and any(isinstance(x[0], VD.Or) for x in p_parts(m)))
    mon.sample(f'{kind} {[m[3] for m in ms]!r} on {vals[:5]!r}')
