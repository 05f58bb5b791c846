"""Classes of many kinds and instances of them; values are fixed objects."""
import abc
import array
import collections
import collections.abc
import contextlib
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import io
import ipaddress
import logging
import numbers
import pathlib
import queue
import re
import threading
import types
import typing as t
import uuid
import weakref

from . import values as V


class Animal:
    pass


class Dog(Animal):
    pass


class Puppy(Dog):
    pass


class Wolf(Puppy, dict):
    pass


class Interface(abc.ABC):
    @abc.abstractmethod
    def act(self): ...


class Actor(Interface):
    def act(self): ...


@Interface.register
class Registered:
    pass


class Ducks(abc.ABC):
    @classmethod
    def __subclasshook__(cls, c):
        return hasattr(c, 'quack') or NotImplemented


class Duck:
    def quack(self): ...


@t.runtime_checkable
class Named(t.Protocol):
    name: str


@t.runtime_checkable
class Closes(t.Protocol):
    def close(self): ...


class EvenMeta(type):
    def __instancecheck__(cls, x):
        return type(x) in (int, bool, Level) and x % 2 == 0


class Even(metaclass=EvenMeta):
    pass


class WithName:
    def __init__(self):
        self.name = 'x'


class Lying:
    """Says that it is another class."""
    def __init__(self, c):
        self._c = c

    @property
    def __class__(self):
        return self._c

    def __repr__(self):
        return f'Lying({self._c.__name__})'


T = t.TypeVar('T')


class Box(t.Generic[T]):
    pass


class IntBox(Box[int]):
    pass


@dataclasses.dataclass(frozen=True)
class Point:
    x: int = 0


@dataclasses.dataclass(frozen=True)
class Point3(Point):
    z: int = 0


class Slotted:
    __slots__ = ()


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Level(enum.IntEnum):
    LOW = 1


class Perm(enum.Flag):
    R = 1
    W = 2


class Name(str, enum.Enum):
    A = 'a'


class MyErr(KeyError):
    pass


class NT(t.NamedTuple):
    a: int = 0


class MyDict(collections.OrderedDict):
    pass


class NewEq:
    """Equal to everything."""
    def __eq__(self, o):
        return True

    __hash__ = None


def _fn():
    pass


_named = WithName()
CLASSES = [
    int, str, float, bool, bytes, list, dict, set, tuple, frozenset, complex, bytearray, memoryview, range, slice, type, object, property, type(None), type(...), type(NotImplemented),
    BaseException, Exception, LookupError, KeyError, ValueError, UnicodeError, ArithmeticError, OSError, Warning, MyErr, StopIteration, GeneratorExit,
    Animal, Dog, Puppy, Wolf, Interface, Actor, Registered, Ducks, Duck, Named, Closes, Even, WithName, Box, IntBox, Point, Point3, Slotted, Falsy, Level, Perm, Name, enum.Enum, enum.IntEnum, NT, MyDict, NewEq, EvenMeta, abc.ABCMeta, abc.ABC,
    collections.OrderedDict, collections.Counter, collections.defaultdict, collections.deque, collections.ChainMap, collections.UserDict, collections.UserList, collections.UserString,
    collections.abc.Iterable, collections.abc.Iterator, collections.abc.Generator, collections.abc.Container, collections.abc.Callable, collections.abc.Collection, collections.abc.Sized, collections.abc.Hashable, collections.abc.Reversible,
    collections.abc.MutableMapping, collections.abc.MutableSequence, collections.abc.Set, collections.abc.MutableSet, collections.abc.KeysView, collections.abc.Awaitable, collections.abc.Mapping, collections.abc.Sequence,
    datetime.date, datetime.datetime, datetime.time, datetime.timedelta, datetime.tzinfo, datetime.timezone, decimal.Decimal, fractions.Fraction, numbers.Number, numbers.Integral, numbers.Real, numbers.Complex, numbers.Rational,
    io.IOBase, io.StringIO, io.BytesIO, io.TextIOBase, ipaddress.IPv4Address, logging.Logger, logging.Handler, pathlib.PurePath, pathlib.Path, re.Pattern, uuid.UUID, array.array, functools.partial, contextlib.AbstractContextManager,
    types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.GeneratorType, types.ModuleType, types.SimpleNamespace, types.MappingProxyType, types.CodeType, threading.Event, queue.Queue, weakref.ref,
    t.SupportsInt, t.SupportsFloat, t.SupportsIndex, t.SupportsAbs,
]
VALUES = [
    None, ..., NotImplemented, True, False, 0, 1, 2, 3, -4, 2.0, 2.5, float('nan'), 1j, '', 'a', b'', b'a', [], [1], (), (1,), {}, {'a': 1}, set(), {1}, frozenset(), bytearray(b'x'), memoryview(b'x'), range(2), slice(1), property(),
    int, object, type, Animal, Even, abc.ABC, Exception, Exception(), KeyError('k'), MyErr(), UnicodeDecodeError('u', b'', 0, 1, 'r'), ZeroDivisionError(), FileNotFoundError(), DeprecationWarning(), StopIteration(), GeneratorExit(), KeyboardInterrupt(),
    Animal(), Dog(), Puppy(), Wolf(), Wolf(a=1), Actor(), Registered(), Duck(), _named, Box(), IntBox(), Box[int](), Point(), Point3(), Slotted(), Falsy(), Level.LOW, Perm.R, Perm.R | Perm.W, Perm(0), Name.A, NT(), MyDict(a=1), NewEq(),
    Lying(int), Lying(str), Lying(Dog), Lying(Exception),
    collections.OrderedDict(a=1), collections.Counter('aa'), collections.defaultdict(list), collections.deque([1]), collections.ChainMap({'a': 1}), collections.UserDict(a=1), collections.UserList([1]), collections.UserString('a'),
    {'a': 1}.keys(), {'a': 1}.values(), iter([]), iter(()), zip(), map(str, ()), datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1), datetime.time(1), datetime.timedelta(1), datetime.timezone.utc, decimal.Decimal(2), decimal.Decimal('2.5'), fractions.Fraction(1, 2),
    io.StringIO('x'), io.BytesIO(b'x'), ipaddress.IPv4Address('127.0.0.1'), logging.getLogger('oblmon.zoo'), logging.NullHandler(), pathlib.PurePosixPath('a'), pathlib.Path('a'), re.compile('a'), uuid.UUID(int=1), array.array('i', [1]), functools.partial(_fn), contextlib.nullcontext(),
    _fn, lambda: 0, Duck().quack, len, [].append, str.join, (x for x in ()), types, types.SimpleNamespace(name='q'), types.MappingProxyType({'a': 1}), _fn.__code__, threading.Event(), queue.Queue(), weakref.ref(_named), V.IntSub(4), V.StrSub('s'), V.ListSub([1]), V.DictSub(a=1),
]
