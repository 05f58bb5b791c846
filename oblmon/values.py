"""Hostile values and type-tagged canonical snapshots of values."""
import collections
import collections.abc
import datetime
import decimal
import enum
import functools
import typing
import fractions
import types
import zlib

SENT = type('Sentinel', (), {'__repr__': lambda s: '<unset>'})()


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class DictSub(dict):
    pass


class ListSub(list):
    pass


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


@functools.lru_cache(None)
def named_tuple(n):
    return collections.namedtuple(f'Named{n}', [f'f{k}' for k in range(n)])


class Colour(enum.IntEnum):
    RED = 3
    BLUE = 7


class Shape(enum.Enum):
    DOT = 'dot'
    BOX = 'box'


class Word(str, enum.Enum):
    UP = 'a'
    DOWN = 'dn'


class Pair(typing.NamedTuple):
    a: int
    b: str


class Tagged:
    """Arbitrary object with a stable identity for snapshots."""
    def __init__(self, tag):
        self.tag = tag

    def __hash__(self):
        return zlib.crc32(f'{type(self).__name__} {self.tag}'.encode())  # set orders are reproducible

    def __repr__(self):
        return f'Tagged({self.tag})'


class Intable(Tagged):
    def __int__(self):
        return int(self.tag)

    def __str__(self):
        return f'intable-{self.tag}'


class Floatable(Tagged):
    def __float__(self):
        return float(self.tag) + 0.5


class Indexable(Tagged):
    def __index__(self):
        return int(self.tag)


class TwoInts(Tagged):
    """The ways to turn it into a number differ."""
    def __int__(self):
        return int(self.tag)

    def __index__(self):
        return int(self.tag) + 100

    def __float__(self):
        return float(self.tag) + 0.25

    def __trunc__(self):
        return int(self.tag) + 200

    def __round__(self, n=None):
        return int(self.tag) + 300


class Blank(Tagged):
    """Its text is empty."""
    def __str__(self):
        return ''



class FalseList(list):
    """Has elements, and is false."""
    def __bool__(self):
        return False


class FalseText(str):
    def __bool__(self):
        return False


CONV_ERRORS = [RuntimeError, RecursionError, MemoryError, ZeroDivisionError, TypeError, ValueError, OverflowError, AttributeError, LookupError, AssertionError, StopIteration, OSError, NotImplementedError]


class BadConv(Tagged):
    """Cannot be turned into a number, for whatever reason."""
    def __int__(self):
        raise CONV_ERRORS[self.tag % len(CONV_ERRORS)]('no int')

    def __float__(self):
        raise CONV_ERRORS[(self.tag + 3) % len(CONV_ERRORS)]('no float')


class TrueLike(Tagged):
    def __str__(self):
        return 'True'


class Formatted(Tagged):
    """Every way to turn it into text gives another one."""
    def __str__(self):
        return f'str-{self.tag}'

    def __format__(self, spec):
        return f'format-{self.tag}'

    def __bytes__(self):
        return b'bytes'


class EqualsAll(Tagged):
    """Equal to everything, false."""
    __hash__ = Tagged.__hash__

    def __eq__(self, o):
        return True

    def __bool__(self):
        return False


class Vector(Tagged):
    """Compares elementwise, as arrays do: the result has no truth value."""
    __hash__ = Tagged.__hash__

    def __eq__(self, o):
        return Vector(self.tag)

    __ne__ = __eq__

    def __bool__(self):
        raise TypeError('truth value of a vector')


class MyMapping(collections.abc.Mapping):
    """A Mapping that is not a dict."""
    def __init__(self, d):
        self._d = dict(d)

    def __repr__(self):
        return f'MyMapping({self._d!r})'

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class FalseDict(dict):
    """A dict with entries that is false."""
    def __bool__(self):
        return False


class FalseMapping(MyMapping):
    """A Mapping with entries that is false."""
    def __bool__(self):
        return False


class Missing(dict):
    """A dict that makes up what it does not have."""
    def __missing__(self, k):
        return 1


class Tally(collections.Counter):
    def __repr__(self):
        return f'Tally({dict(self)!r})'  # Counter's own compares the values


def counter(d):
    c = Tally()
    dict.update(c, d)
    return c


def defaulting(d):
    return collections.defaultdict(list, d)


class Vow:
    """Hashable custom class used as a plain class in type expressions."""
    def __init__(self, tag=0):
        self.tag = tag

    def __eq__(self, o):
        return type(o) is type(self) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return f'{type(self).__name__}({self.tag})'


class SubVow(Vow):
    pass


class MObj:
    """Model of a schema instance: values by field name (absent = unset)."""
    __slots__ = ('sspec', 'vals', 'state', 'real', 'initialized')

    def __init__(self, sspec, state=None):
        self.sspec = sspec
        self.vals = {}
        self.state = state
        self.real = None
        self.initialized = False


class Id(int):
    """Identity in a snapshot: compared, but not part of hashes made from snapshots (an address differs between runs)."""
    def __repr__(self):
        return 'id'


def _nm(v):
    return type(v).__name__


def canon(v, depth=0):
    """Type-tagged snapshot; 1, True and 1.0 all differ; dict/set order ignored."""
    if depth > 60:
        return ('deep',)
    if v is None:
        return ('None',)
    t = type(v)
    if t is bool:
        return ('bool', v)
    if t is str:
        return ('str', v)
    if t is int:
        return ('int', hex(v))
    if t is float:
        return ('float', float.__repr__(v))
    if isinstance(v, MObj):
        return ('S', v.sspec.name, tuple((f.name, canon(v.vals[f.name], depth + 1))
                                         for f in v.sspec.all_fields() if f.name in v.vals))
    spec = getattr(t, '__monspec__', None)
    if spec is not None:
        out = []
        for f in spec.all_fields():
            x = v.get_value_for(f.name, SENT)
            if x is not SENT:
                out.append((f.name, canon(x, depth + 1)))
        return ('S', spec.name, tuple(out))
    if isinstance(v, enum.Enum):
        return (_nm(v), v.name)
    if isinstance(v, (str, bytes, bytearray)):
        return (_nm(v), bytes(v) if not isinstance(v, str) else str.__str__(v))
    if isinstance(v, int):
        return (_nm(v), hex(v))
    if isinstance(v, float):
        return (_nm(v), float.__repr__(v))
    if isinstance(v, (dict, collections.abc.Mapping)):
        return (_nm(v), tuple(sorted(((canon(k, depth + 1), canon(x, depth + 1)) for k, x in v.items()), key=repr)))
    if isinstance(v, (set, frozenset)):
        return (_nm(v), tuple(sorted((canon(x, depth + 1) for x in v), key=repr)))
    if isinstance(v, (list, tuple, collections.deque)):
        return (_nm(v), tuple(canon(x, depth + 1) for x in v))
    if isinstance(v, (Tagged, Vow)):
        return (_nm(v), v.tag)
    if v is ... or v is NotImplemented:
        return ('const', repr(v))
    if isinstance(v, type):
        return ('cls', v.__name__)
    if isinstance(v, (decimal.Decimal, fractions.Fraction, complex, datetime.date, range)):
        return (_nm(v), repr(v))
    return (_nm(v), 'id', Id(id(v)))


def chash(*parts):
    """Deterministic hash of snapshots, independent of process."""
    return zlib.crc32(repr(parts).encode('utf-8', 'surrogatepass'))


def same(a, b):
    return canon(a) == canon(b)


STRS = ['', 'a', 'b', 'abc', 'True', 'true', 'TRUE', 'yes', 'Yes', 'no', 'No', 'False', '1', '0', '12', ' 12 ', '-3', '1.5', '1e3', 'nan',
        '1_000', 'tRuE', 'on', 'ünï', '\u0661', '😀', 'a\nb', '\x00', 'None', '{value}', '%s', 'x' * 300, '9' * 30, '\ud800', 'yEs', '2', '0x10', 'e\u0301', '\ufb01n', '\u0130', 'stra\u00dfe', '\ufeffa', 'a\u2028b', 'a\r\nb', '\u212b', 'YES\u200b', '\u1e9b\u0323', ' ']
INTS = [0, 1, -1, 2, 3, 5, 7, 10, 255, -128, 2 ** 31, 2 ** 63, -2 ** 70, 10 ** 400]
FLOATS = [0.0, -0.0, 1.0, 1.5, -2.25, 1e308, 1e-320, float('inf'), float('-inf'), float('nan')]


def atom(rng):
    """A hashable leaf of any type."""
    k = rng.randrange(22)
    if k < 5:
        return rng.choice(STRS)
    if k < 9:
        return rng.choice(INTS)
    if k < 11:
        return rng.choice(FLOATS)
    if k < 13:
        return rng.random() < 0.5
    return rng.choice([
        lambda: None, lambda: rng.choice([b'', b'ab', b'12', b'True']), lambda: StrSub(rng.choice(STRS[:12])), lambda: IntSub(rng.choice(INTS[:8])),
        lambda: FloatSub(rng.choice(FLOATS[:5])), lambda: Colour.RED, lambda: Shape.DOT, lambda: decimal.Decimal('2.5'), lambda: fractions.Fraction(7, 2),
        lambda: complex(1, 2), lambda: datetime.date(2020, 1, 2), lambda: Intable(rng.randrange(5)), lambda: Floatable(rng.randrange(5)),
        lambda: Indexable(rng.randrange(5)), lambda: TwoInts(rng.randrange(5)), lambda: Blank(rng.randrange(5)), lambda: FalseText('ft'), lambda: BadConv(rng.randrange(13)), lambda: TrueLike(rng.randrange(3)), lambda: Tagged(rng.randrange(5)), lambda: Formatted(rng.randrange(5)), lambda: decimal.Decimal('-3.7'),
        lambda: Vow(rng.randrange(3)), lambda: SubVow(rng.randrange(3)), lambda: frozenset([1, 'a']), lambda: (), lambda: (1, 'a'), lambda: int, lambda: range(3), lambda: ...,
    ])()


def anyval(rng, depth=2):
    """Any value: leaves and containers."""
    if depth <= 0 or rng.random() < 0.65:
        return atom(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    k = rng.randrange(10)
    if k < 3:
        return [anyval(rng, depth - 1) for _ in range(n)]
    if k < 6:
        d = {(rng.choice(STRS[:14]) if rng.random() < 0.8 else atom(rng) if rng.random() < .8 else None): anyval(rng, depth - 1) for _ in range(n)}
        if k == 5 and rng.random() < 0.4:
            return rng.choice([DictSub, MyMapping, types.MappingProxyType, collections.OrderedDict, collections.UserDict])(d)
        return d
    if k == 6:
        return {atom(rng) for _ in range(n)}
    if k == 7:
        return tuple(anyval(rng, depth - 1) for _ in range(n))
    if k == 8:
        return rng.choice([ListSub, collections.deque, SetSub, frozenset])([atom(rng) for _ in range(n)])
    return bytearray(b'xy')


def zoo():
    """A fixed list covering every leaf and container shape."""
    out = [None, True, False] + STRS + INTS + FLOATS
    out += [b'', b'12', b'True', bytearray(b'7'), StrSub('s'), StrSub('12'), StrSub('True'), IntSub(4), IntSub(0), FloatSub(2.5), Colour.RED, Shape.DOT,
            decimal.Decimal('2.5'), decimal.Decimal('NaN'), fractions.Fraction(7, 2), complex(1, 2), datetime.date(2020, 1, 2), Intable(3), Floatable(3), Indexable(4),
            *map(BadConv, range(13)), TwoInts(2), Blank(1), FalseText('12'), FalseText('a'), TrueLike(1), Formatted(1), decimal.Decimal('3.7'), fractions.Fraction(-7, 2), bytearray(b'1.5'), b'1.5', b'1234567.5', memoryview(b'12'), Tagged(1), Vow(1), SubVow(2), frozenset([1]), frozenset(), (), (1,), (1, 'a'), [], [1], ['a', 1], {}, {'a': 1}, {1: 2}, set(), {1, 'a'},
            DictSub(a=1), ListSub([1]), SetSub([1]), MyMapping({'a': 1}), types.MappingProxyType({'a': 1}), collections.OrderedDict(a=1), collections.deque([1]),
            range(3), int, object, ..., NotImplemented, lambda: None, collections.UserDict(a=1), '9' * 5000]
    return out


def wrap_mapping(rng, d, p=0.25):
    """The same data in another Mapping type."""
    if rng.random() >= p:
        return d
    k = rng.randrange(9)
    if k == 8:
        return rng.choice([FalseDict, FalseMapping])(d)
    if k == 7:
        return Missing(d)
    if k == 6:
        return defaulting(d)
    if k == 0:
        return types.MappingProxyType(d)
    if k == 1:
        return collections.UserDict(d)
    if k == 2:
        return collections.OrderedDict(d)
    if k == 3:
        return MyMapping(d)
    if k == 4:
        return collections.ChainMap({}, d)
    return DictSub(d)
