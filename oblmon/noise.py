"""Library operations run from inside callbacks or between operations, on unrelated schemas."""
import warnings

import oblate
from oblate import fields as F, validate as VD


class Boom(Exception):
    pass


class Inner(oblate.Schema):
    n = F.Integer(load_key='N')
    s = F.String(required=False, none=True)

    @VD.field(n)
    def chk(self, value, ctx):
        assert value != 13, 'noise thirteen'

    @VD.field(s, raw=True)
    def boom(self, value, ctx):
        if value == 'boom':
            raise Boom('noise')


class BadDump(F.Any):
    def value_dump(self, value, ctx):
        if value == 'boom':
            raise Boom('noise dump')
        if value == 'ok':
            return value
        raise ValueError('noise dump')


class Outer(oblate.Schema):
    a = F.String()
    inner = F.Object(Inner, required=False, none=True)
    f = F.Integer(frozen=True, required=False)
    d = BadDump(required=False)
    li = F.List(int, required=False)

    @VD.field('a')
    def chk(self, value, ctx):
        if value == 'nested':
            Outer({'a': 5, 'inner': {'N': 13}})


def _quiet(fn):
    try:
        fn()
    except (oblate.OblateException, Boom, TypeError, RuntimeError, AttributeError, ValueError):
        pass


def _upd(data, **kw):
    Outer({'a': 'x', 'inner': {'N': 1}, 'd': 'ok'}).update(data, **kw)


def _set(name, v):
    setattr(Outer({'a': 'x', 'f': 1}), name, v)


OPS = [
    lambda: Outer({'a': 'x', 'inner': {'N': 1, 's': None}}),
    lambda: Outer({'a': 5, 'zz': 1, 'inner': {'n': 13, 's': 5}}),
    lambda: Outer({'inner': None}),
    lambda: Outer({'a': None, 'inner': {'N': 'x'}}),
    lambda: Outer({'a': 'x', 'inner': {'N': 1, 's': 'boom'}}),
    lambda: Outer({'a': 'nested'}),
    lambda: Outer(None),
    lambda: _upd({'a': 5, 'zz': 1}),
    lambda: _upd({'a': 'y'}),
    lambda: _upd({'a': 'y', 'f': 3}),
    lambda: _upd({'inner': {'N': 13}}),
    lambda: _upd({'inner': {'N': 1, 's': 'boom'}}),
    lambda: _upd({'inner': None, 'li': [1, 'x']}),
    lambda: _set('a', None),
    lambda: _set('a', 'ok'),
    lambda: _set('f', 3),
    lambda: _set('inner', {'N': 13}),
    lambda: Outer({'a': 'x', 'd': 1}).dump(),
    lambda: Outer({'a': 'x', 'd': 'boom'}).dump(),
    lambda: Outer({'a': 'x', 'd': 'ok', 'inner': {'N': 2}}).dump(include=['inner']),
    lambda: Outer({'a': 'x', 'inner': {'N': 2}}).copy().update({'zz': 1}),
    lambda: Outer({'a': 'x'}).f,
    lambda: Outer({'a': 'x'}).get_value_for('nope'),
    lambda: oblate.validate_types({'a': int, 'b': list[int]}, {'a': 'x', 'c': 1}),
    lambda: oblate.validate_types({'a': int}, {'a': 1}),
    lambda: Outer({'a': 'x'}).dump(include=['a'], exclude=['f']),
    lambda: Outer({'a': 'x'}).dump(include=['zz']),
    lambda: Outer({'a': 'x'}).dump(exclude=['zz']),
    lambda: Outer({'a': 'x', 'inner': {'N': 1}}).dump(exclude=['inner']),
    lambda: Outer(5),
    lambda: _upd(5),
    lambda: _upd({}),
    lambda: Outer(5).copy(),
    lambda: setattr(Outer({'a': 'x', 'inner': {'N': 1}}).inner, 'n', 13),
    lambda: Outer.f.copy(frozen=False),
    lambda: Outer.f.copy(nope=1),
    lambda: Outer.add_field('f', F.Integer()),
    lambda: repr(Outer({'a': 'x'}).context),
    lambda: delattr(Outer({'a': 'x'}), 'a'),
]


def _read(schema):
    for name in type(schema).__fields__:
        getattr(schema, name, None)
        schema.get_value_for(name, None)


# uses of the very schema being processed that change nothing
LIVE = [
    lambda s: s.dump(),
    lambda s: s.copy(),
    lambda s: s.copy().copy(),
    lambda s: s.copy().update({'no such key': 1}),
    lambda s: s.dump(include=[], exclude=['no such']),
    lambda s: s.dump(include=list(type(s).__fields__)[:1]),
    lambda s: s.dump(include=list(type(s).__fields__)[:1], exclude=list(type(s).__fields__)[:1]),
    lambda s: s.dump(exclude=list(type(s).__fields__)[:1]),
    lambda s: s.dump(include=['no such']),
    lambda s: s.get_value_for('no such'),
    lambda s: s.get_value_for(list(type(s).__fields__)[-1]),
    lambda s: (repr(s), hash(s), s == s, s != 1),
    _read,
    lambda s: s.update({}),
    lambda s: s.update({'no such key': 1}, ignore_extra=True),
]


def run(k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _quiet(OPS[k % len(OPS)])


def install(w, rng, p, mon=None, extra=()):
    """Run noise inside a fraction p of all user callbacks of world w."""
    busy = [False]

    def step(kind, spec, schema, value, ctx):
        if busy[0] or rng.random() >= p:
            return
        busy[0] = True
        rec, w.recording = w.recording, False
        try:
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random()
                if r < .75 or not extra:
                    run(rng.randrange(len(OPS)))
                else:
                    _quiet(rng.choice(extra))
                if mon is not None:
                    mon.count('reentrant_ops')
            if schema is not None and kind not in ('pre', 'fmt') and rng.random() < .3:
                use = rng.choice(LIVE)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    _quiet(lambda: use(schema))
                if mon is not None:
                    mon.count('live_uses')
        finally:
            w.recording = rec
            busy[0] = False
    w.on_step = step
