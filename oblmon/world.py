"""Schema specifications, builder of real instrumented classes, reference model, comparison."""
import collections
import collections.abc
import copy
import functools
import types
import typing as t
import warnings

import oblate
from oblate import fields as F, validate as VD

from . import texpr, values as V
from .core import Violation, check
from .values import MObj, SENT, canon, chash

BASE_CODES = ['ERR_FIELD_REQUIRED', 'ERR_NONE_DISALLOWED', 'ERR_VALIDATION_FAILED']
KIND_CODES = {
    'string': ['ERR_INVALID_DATATYPE'], 'integer': ['ERR_INVALID_DATATYPE', 'ERR_COERCION_FAILED'], 'float': ['ERR_INVALID_DATATYPE', 'ERR_COERCION_FAILED'],
    'boolean': ['ERR_INVALID_DATATYPE', 'ERR_COERCION_FAILED'], 'any': [], 'literal': ['ERR_INVALID_VALUE'], 'union': ['ERR_INVALID_VALUE'],
    'typeexpr': ['ERR_TYPE_VALIDATION_FAILED'], 'dict': ['ERR_INVALID_DATATYPE', 'ERR_TYPE_VALIDATION_FAILED'],
    'list': ['ERR_INVALID_DATATYPE', 'ERR_TYPE_VALIDATION_FAILED'], 'set': ['ERR_INVALID_DATATYPE', 'ERR_TYPE_VALIDATION_FAILED'],
    'typeddict': ['ERR_INVALID_DATATYPE', 'ERR_TYPE_VALIDATION_FAILED'], 'object': ['ERR_INVALID_DATATYPE'], 'custom': [], 'strip': ['ERR_INVALID_DATATYPE'],
}
KIND_CLS = {'string': F.String, 'integer': F.Integer, 'float': F.Float, 'boolean': F.Boolean, 'any': F.Any, 'literal': F.Literal, 'union': F.Union,
            'typeexpr': F.TypeExpr, 'dict': F.Dict, 'list': F.List, 'set': F.Set, 'typeddict': F.TypedDict, 'object': F.Object, 'custom': oblate.fields.Field,
            'strip': F.String}
PRIMS = ('string', 'integer', 'float', 'boolean')
BUILTINS = ('string', 'string', 'integer', 'integer', 'float', 'boolean', 'any', 'literal', 'union', 'typeexpr', 'dict', 'list', 'set', 'typeddict')
MULTI_MSG = {('dict', 'ERR_TYPE_VALIDATION_FAILED'), ('list', 'ERR_TYPE_VALIDATION_FAILED'), ('set', 'ERR_TYPE_VALIDATION_FAILED'),
             ('typeddict', 'ERR_TYPE_VALIDATION_FAILED'), ('typeexpr', 'ERR_TYPE_VALIDATION_FAILED'), ('union', 'ERR_INVALID_VALUE'), ('literal', 'ERR_INVALID_VALUE')}


class MyVE(ValueError):
    pass


class MyAE(AssertionError):
    pass


class MyFE(oblate.FieldError):
    pass


class EqFE(oblate.FieldError):
    """Equal to every other error."""
    def __eq__(self, o):
        return isinstance(o, oblate.FieldError)

    __hash__ = oblate.FieldError.__hash__


class DualVE(oblate.FieldError, ValueError):
    """A field error that is a ValueError as well."""


class DualAE(MyFE, AssertionError):
    pass


class Foreign(Exception):
    """An exception the library knows nothing about."""


class ForeignBase(BaseException):
    pass


class Printable:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return f'Printable({self.text})'


ERR_KINDS = ['VE', 'VE', 'AE', 'AE', 'VE0', 'AE0', 'FE', 'FE', 'FES', 'FEL', 'FET', 'FENT', 'FESET', 'FED', 'FEO', 'SUBVE', 'SUBAE', 'SUBFE', 'UDE', 'FENEST', 'VE2', 'VE3', 'AE2', 'VEC', 'AEX', 'FEVE', 'FEAE', 'FEQ', 'FEQL', 'FEIN', 'FELN', 'VEB', 'VEL', 'FEB', 'FELD']
SIMPLE_ERR_KINDS = ['VE', 'AE', 'FE', 'VE', 'SUBVE', 'FES', 'AE0', 'VE0', 'VEC']


class State:
    """Distinct state attached to errors."""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'State({self.tag})'


class FalseState(State):
    """A state that is false and equal to everything."""
    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = None


# every call gives a new object of its own: states are compared by identity
STATE_KINDS = [State, State, FalseState, lambda tok: {'tok': tok}, lambda tok: [tok], lambda tok: {}, lambda tok: []]


def make_error(kind, tok, states):
    """The exception user code raises."""
    if kind == 'VE':
        return ValueError(tok)
    if kind == 'AE':
        return AssertionError(tok)
    if kind in ('VE0', 'AE0'):
        # without a message, one way or the other
        cls = ValueError if kind == 'VE0' else AssertionError
        n = chash('empty', tok) % 6
        return cls('') if n == 0 else cls(Printable('')) if n == 1 else (UnicodeError('') if kind == 'VE0' else MyAE()) if n == 2 else cls()
    if kind == 'FE':
        return oblate.FieldError(tok)
    if kind == 'FES':
        return oblate.FieldError(tok, state=states[tok])
    if kind == 'FEL':
        return oblate.FieldError([tok + '.1', tok + '.2', tok + '.3'], state=states[tok])
    if kind == 'FET':
        return oblate.FieldError((tok + '.1', tok + '.2'), state=states[tok])
    if kind == 'FENT':
        return oblate.FieldError(V.named_tuple(2)(tok + '.1', tok + '.2'), state=states[tok])
    if kind == 'FEIN':
        return oblate.FieldError([oblate.FieldError(tok + '.1', state=State('inner')), tok + '.2'], state=states[tok])
    if kind == 'VEB':
        return ValueError(' ')
    if kind == 'FEB':
        return oblate.FieldError('\n', state=states[tok])
    if kind == 'VEL':
        return AssertionError('\n ' + tok)
    if kind == 'FELN':
        return oblate.FieldError([tok, None, 0, '', False], state=states[tok])
    if kind == 'FESET':
        return oblate.FieldError({tok + '.1', tok + '.2'}, state=states[tok])
    if kind == 'FED':
        return oblate.FieldError({'p': tok, 'q': [tok, 3, {'z': None}]}, state=states[tok])
    if kind == 'FELD':
        return oblate.FieldError([tok + '.1', {'p': tok, 'q': [tok, 3, {'z': None}]}], state=states[tok])
    if kind == 'FENEST':
        return oblate.FieldError({}, state=states[tok])
    if kind == 'FEO':
        return oblate.FieldError(Printable(tok))
    if kind == 'SUBVE':
        return MyVE(tok)
    if kind == 'SUBAE':
        return MyAE(tok)
    if kind in ('FEVE', 'FEAE'):
        return (DualVE if kind == 'FEVE' else DualAE)(tok, state=states[tok])
    if kind == 'FEQ':
        return EqFE(tok, state=states[tok])
    if kind == 'FEQL':
        return EqFE([tok + '.1', tok + '.2', tok + '.3'], state=states[tok])
    if kind == 'SUBFE':
        return MyFE(tok, state=states[tok])
    if kind == 'UDE':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, tok)
    if kind == 'VE2':
        return ValueError(tok, 5)
    if kind == 'VE3':
        return ValueError(tok, 'more')
    if kind == 'AE2':
        return AssertionError([tok, 'more'])
    if kind in ('VEC', 'AEX'):
        # raised because of another exception, or while handling one
        n = chash('cause', tok)
        cause = [KeyError(tok), OSError(tok), ValueError('cause'), AssertionError('cause'), Foreign(tok), ForeignBase(tok), oblate.FieldError('cause'), TypeError(tok), StopIteration()][n % 9]
        e = (ValueError if kind == 'VEC' else AssertionError)(tok)
        if n % 2:
            e.__cause__ = cause
        e.__context__ = cause
        e.add_note('a note')
        return e
    raise KeyError(kind)


def chained(e, tok):
    """Any error may have been raised because of another one, or while handling one."""
    n = chash('chained', tok)
    if n % 2 == 0 and e.__context__ is None:
        cause = [AssertionError('cause'), ValueError('cause'), KeyError(tok), oblate.FieldError('cause'), Foreign(tok), AssertionError()][n // 2 % 6]
        if n // 12 % 2:
            e.__cause__ = cause
        e.__context__ = cause
    return e


class Exp:
    """One expected field error."""
    __slots__ = ('key', 'f', 'msg', 'state', 'ctx', 'sub', 'origin', 'mo')

    def __init__(self, key, f, msg, state=None, ctx=None, origin='', sub=None):
        self.key, self.f, self.msg, self.state, self.ctx, self.origin, self.sub = key, f, msg, state, ctx, origin, sub
        self.mo = None

    def __repr__(self):
        return f'<{self.key!r} {self.origin} {self.msg} {self.sub or ""}>'


# what validators return has no meaning
RETURNED = [None, None, False, True, '', 'no', [], ValueError('returned'), oblate.Schema]


def callable_form(n, fn):
    """The same function as another kind of callable."""
    n %= 8
    if n == 0:
        class Callable:
            def __call__(self, *a):
                return fn(*a)
        return Callable()
    if n == 1:
        return functools.partial(lambda x, *a: fn(*a), 1)
    if n == 2:
        class Made:
            def __new__(cls, *a):
                return fn(*a)
        return Made
    if n == 3:
        class Holder:
            def method(self, *a):
                return fn(*a)
        return Holder().method
    if n == 4:
        class ClassHolder:
            @classmethod
            def method(cls, *a):
                return fn(*a)
        return ClassHolder.method
    return fn


def decorated(tok):
    """Messages with text that must not be touched."""
    return tok + ['', '', '', '', ' ', '\n', ' {} %s ', '\t\u200b'][chash('decor', tok) % 8]


class VSpec:
    __slots__ = ('id', 'raw', 'style', 'err', 'rate', 'tok', 'fn', 'owner')

    def __init__(self, id, raw, style, err, rate):
        self.id, self.raw, self.style, self.err, self.rate = id, raw, style, err, rate
        self.tok = decorated(f'tok:{id}')
        self.fn = None
        self.owner = None

    def fails(self, value):
        return chash('v', self.id, canon(value)) % 16 < self.rate

    def __repr__(self):
        return f'V({self.id},{"raw" if self.raw else "ord"},{self.style},{self.err},{self.rate})'


class FSpec:
    def __init__(self, fid, name, kind):
        self.fid, self.name, self.kind = fid, name, kind
        self.p = {}
        self.none = False
        self.required = True
        self.default = None          # None | ('val', v) | ('call', v)
        self.frozen = False
        self.load_key = self.dump_key = self.data_key = None
        self.vs = []
        self.fmt = None
        self.fmt_codes = set()
        self.instr = False
        self.sub = None
        self.init_kwargs = None
        self.extras = None
        self.rate_load = self.rate_dump = 0
        self.err_load = self.err_dump = 'VE'
        self.node = None
        self.real = None             # Field object
        self.code_of = {}            # error codes as they were when the field was made

    @property
    def lk(self):
        k = self.data_key if self.data_key is not None else self.load_key
        return self.name if k is None else k

    @property
    def dk(self):
        k = self.data_key if self.data_key is not None else self.dump_key
        return self.name if k is None else k

    @property
    def req(self):
        return self.required and self.default is None

    @property
    def ltok(self):
        return decorated(f'tok:{self.fid}:load')

    @property
    def dtok(self):
        return decorated(f'tok:{self.fid}:dump')

    def codes(self):
        return BASE_CODES + KIND_CODES[self.kind]

    def raws(self):
        return [v for v in self.vs if v.raw]

    def ords(self):
        return [v for v in self.vs if not v.raw]

    def __repr__(self):
        o = [self.kind]
        if self.p:
            o.append(str({k: v for k, v in self.p.items()}))
        if self.node is not None:
            o.append(self.node.desc())
        for a in ('none', 'frozen'):
            if getattr(self, a):
                o.append(a)
        if not self.required:
            o.append('opt')
        if self.default:
            o.append(f'default={self.default!r:.80}')
        if self.lk != self.name or self.dk != self.name:
            o.append(f'lk={self.lk!r} dk={self.dk!r}')
        if self.fmt:
            o.append(f'fmt={self.fmt}')
        if self.vs:
            o.append(str(self.vs))
        if self.sub:
            o.append(f'sub={self.sub!r} kw={self.init_kwargs}')
        if self.rate_load or self.rate_dump:
            o.append(f'L{self.rate_load}{self.err_load} D{self.rate_dump}{self.err_dump}')
        return f'{self.name}:{" ".join(o)}'


class SSpec:
    def __init__(self, name):
        self.name = name
        self.own = []
        self.parents = []
        self.config = None           # dict of options or None
        self.cls = None
        self.hooks = True
        self.pre = None              # optional data transformation (real data -> data)

    def all_fields(self):
        """Fields by Python's method resolution order: own definitions win."""
        if self.cls is not None:
            if '_af' not in self.__dict__:
                out = {}
                for c in reversed(self.cls.__mro__):
                    s = c.__dict__.get('__monspec__')
                    if s is not None:
                        for f in s.own:
                            out[f.name] = f
                self._af = list(out.values())
            return self._af
        out = {}
        for p in reversed(self.parents):
            for f in p.all_fields():
                out[f.name] = f
        for f in self.own:
            out[f.name] = f
        return list(out.values())

    def field(self, name):
        for f in self.all_fields():
            if f.name == name:
                return f

    def by_key(self):
        return {f.lk: f for f in self.all_fields()}

    def conf(self):
        """Effective configuration options (single inheritance line)."""
        base = dict(ignore_extra=False, frozen=False, slotted=True, add_repr=True)
        s = self
        while s is not None:
            if s.config is not None:
                base.update(s.config)
                break
            s = s.parents[0] if s.parents else None
        return base

    def __repr__(self):
        return f'{self.name}({", ".join(map(repr, self.own))}{" <" + ",".join(map(repr, self.parents)) + ">" if self.parents else ""}{" " + str(self.config) if self.config else ""})'


class MF:
    """Model record of one processed value in one operation frame."""
    __slots__ = ('f', 'raw', 'loaded', 'final', 'rawv', 'ordv', 'sub')

    def __init__(self, f, raw):
        self.f, self.raw = f, raw
        self.loaded = False
        self.final = SENT
        self.rawv = []
        self.ordv = []
        self.sub = None


class Frame:
    __slots__ = ('ss', 'op', 'data', 'mfs', 'ok', 'mobj', 'defaults', 'seen')

    def __init__(self, ss, op, data):
        self.ss, self.op, self.data = ss, op, data
        self.mfs = []
        self.ok = False
        self.mobj = None
        self.defaults = []


class Ev:
    __slots__ = ('kind', 'spec', 'schema', 'value', 'snap', 'ctx', 'extra')

    def __init__(self, kind, spec, schema, value, ctx, extra=None):
        self.kind, self.spec, self.schema, self.value, self.ctx, self.extra = kind, spec, schema, value, ctx, extra

    def __repr__(self):
        return f'{self.kind}:{getattr(self.spec, "id", None) or getattr(self.spec, "fid", None) or getattr(self.spec, "name", "")}'


class Result:
    def __init__(self):
        self.ok = False
        self.real = None
        self.exc = None
        self.mobj = None
        self.merrs = []
        self.frames = []
        self.events = []
        self.value = None

    def describe(r):
        return dict(schema=repr(r.ss), op=f'{r.op} {r.kw}', data=r.data if not isinstance(r.data, V.MyMapping) else dict(r.data),
                    model=r.merrs or 'success', got=f'{type(r.exc).__name__}: {r.exc}' if r.exc is not None else 'success', tb=tb_of(r.exc))


# entries user code may store in the state of a context
CTX_STATE = {'validated': True, 'skip': True, 'errors': [1], 'key': 'other', 'value': None, 'raw': True, 'schema': None, 'field': 0, '': 0, None: 1}


class World:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.events = []
        self.recording = True
        self.states = collections.defaultdict(lambda: None)
        self.on_step = None          # hook called inside every user callback
        self.fresh_states = {}
        self.depth = 0
        self.frames = None
        self.pool = []               # nested schemas that may be used again
        self.subclass_values = True
        self.built = []              # classes made so far
        self.inside = False
        self.children = {}           # spec -> specs of classes that inherit it

    # ---------------------------------------------------------------- callbacks
    def cb(self, kind, spec, schema, value, ctx, extra=None):
        if self.recording:
            ev = Ev(kind, spec, schema, value, ctx, extra)
            self.events.append(ev)
        if self.on_step is not None:
            self.on_step(kind, spec, schema, value, ctx)

    def uid(self):
        self.n += 1
        return self.n

    def state_for(self, tok):
        st = self.states.get(tok)
        if st is None:
            st = self.states[tok] = STATE_KINDS[chash('state', tok) % len(STATE_KINDS)](tok)
        return st

    # ---------------------------------------------------------------- generation
    def gen_validators(self, f, prof):
        rng = self.rng
        p = prof.get('validators', .5)
        if rng.random() >= p:
            return
        for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() > .02 else rng.randrange(5, 14)):
            raw = rng.random() < prof.get('p_raw', .35)
            style = rng.choice(['arg_fn', 'arg_cls', 'add_fn', 'add_cls', 'meth_obj', 'meth_name', 'post_add'])
            if style == 'arg_fn':
                raw = False
            kinds = prof.get('err_kinds', SIMPLE_ERR_KINDS)
            f.vs.append(VSpec(f'v{self.uid()}', raw, style, rng.choice(kinds), prof.get('vrate', rng.choice([0, 1, 3, 5]))))
            if rng.random() < prof.get('p_same', .06):
                # the same failure as another callback of the field
                v, o = f.vs[-1], rng.choice(f.vs)
                v.tok, v.err = (f.ltok, f.err_load) if f.kind == 'custom' and rng.random() < .5 else (o.tok, o.err)
        order = {'arg_fn': 0, 'arg_cls': 0, 'add_fn': 1, 'add_cls': 1, 'meth_obj': 2, 'meth_name': 2, 'post_add': 3}
        f.vs.sort(key=lambda v: order[v.style])

    def gen_field(self, name, depth, prof):
        rng = self.rng
        kinds = prof.get('kinds')
        if kinds:
            kind = rng.choice(kinds)
        else:
            r = rng.random()
            if depth > 0 and r < prof.get('p_object', .25):
                kind = 'object'
            elif prof.get('custom', True) and r > .82:
                kind = rng.choice(['custom', 'custom', 'strip'])
            else:
                kind = rng.choice(BUILTINS)
        if kind == 'object' and depth <= 0:
            kind = 'integer'
        f = FSpec(f'f{self.uid()}', name, kind)
        if kind in PRIMS:
            f.p['strict'] = rng.random() < .6
            if kind == 'boolean' and rng.random() < .3:
                if rng.random() < .7:
                    f.p['true_values'] = rng.choice([('on', 'T'), ['1', '2'], ()])
                if rng.random() < .7:
                    f.p['false_values'] = rng.choice([('off', 'F'), ['0', 'None'], ('1', 'x')])
        elif kind == 'strip':
            f.p['strict'] = rng.random() < .7
        elif kind == 'literal':
            f.node = texpr.Lit(rng)
        elif kind == 'union':
            td = rng.choice([0, 0, 1])
            ms = [texpr.gen(rng, td) for _ in range(rng.choice([2, 3]))]
            f.node = texpr.UnionN(rng, ms)
            f.p['members'] = ms
        elif kind == 'typeexpr':
            f.node = texpr.gen(rng, rng.choice([0, 1, 2]))
        elif kind == 'dict':
            f.node = texpr.DictN(rng, texpr.gen(rng, 1, True), texpr.gen(rng, 1)) if rng.random() < .7 else texpr.DictN(rng, None, None)
        elif kind == 'list':
            f.node = texpr.ListN(rng, texpr.gen(rng, 1) if rng.random() < .7 else None)
        elif kind == 'set':
            f.node = texpr.SetN(rng, texpr.gen(rng, 1, True) if rng.random() < .7 else None)
        elif kind == 'typeddict':
            f.node = texpr.gen_td(rng, 1)
        elif kind == 'custom':
            f.rate_load = rng.choice(prof.get('load_rates', [0, 0, 2, 4]))
            f.rate_dump = rng.choice(prof.get('dump_rates', [0, 0, 3]))
            ks = prof.get('err_kinds', SIMPLE_ERR_KINDS)
            f.err_load, f.err_dump = rng.choice(ks), rng.choice(ks)
        elif kind == 'object':
            if self.pool and rng.random() < prof.get('p_reuse', .15):
                f.sub = rng.choice(self.pool)
            else:
                f.sub = self.gen_schema(depth - 1, prof)
                self.pool.append(f.sub)
                if rng.random() < .15 and f.sub.cls is not None:
                    self.gen_override(f.sub, prof)
            if rng.random() < .3:
                f.init_kwargs = {}
                if rng.random() < .8:
                    f.init_kwargs['ignore_extra'] = rng.random() < .6
                if rng.random() < .4:
                    f.init_kwargs['state'] = rng.choice([None, 'st', [1], {'k': 1}])
        f.none = rng.random() < .3
        f.required = rng.random() < .6
        f.frozen = rng.random() < prof.get('p_frozen', .1)
        if rng.random() < prof.get('p_default', .25):
            v = rng.choice([None, 0, '', 'dflt', [], {}, 7, False]) if rng.random() < .5 else self.good_value(f, rng)
            f.default = (rng.choice(['val', 'call']), 0 if callable(v) else v)
        if kind == 'object' and f.default:
            # anything but None or a schema instance is no value such a field could dump
            f.default = (f.default[0], self.make_instance(f.sub, rng) if rng.random() < .6 else None)
            if f.default[1] is None and prof.get('valid_default'):
                f.none = True
        if f.default and kind != 'object' and prof.get('valid_default'):
            v = self.m_load(f, self.good_value(f, rng), None)
            f.default = (f.default[0], v[0]) if v[1] is None and v[0] is not None and not callable(v[0]) else None
        if rng.random() < prof.get('p_fmt', .5):
            f.fmt = rng.choice(['str', 'str', 'fe', 'fel', 'some', 'none', 'super', 'empty', 'sub', 'subl'])
            f.fmt_codes = set(rng.sample(f.codes(), max(1, len(f.codes()) // 2)))
        f.instr = rng.random() < prof.get('p_instr', .5)
        if not (f.default and prof.get('valid_default')):
            self.gen_validators(f, prof)
        for v in f.vs:
            v.owner = f
        return f

    NAMES = ['_p', '__q', 'Upper', 'a', 'b', 'c', 'd', 'e', 'g', 'id', 'name', 'x1', 'value', 'data', 'items', 'keys', 'fields', 'schema', 'state']
    KEYS = ['A', 'Key', 'a b', '', '1', 'ключ', 'a', 'b', 'c', 'd', 'name', 'x-y', 'From', '$id', 'Käse']

    def gen_schema(self, depth=1, prof=None, nf=None):
        rng = self.rng
        prof = prof or {}
        ss = SSpec(f'S{self.uid()}')
        large = nf is None and rng.random() < prof.get('p_large', .006)
        if large:
            nf = rng.randrange(17, 60)
        nf = nf if nf is not None else rng.choice(prof.get('nf', [1, 2, 3, 3, 4, 5, 7]))
        names = rng.sample(self.NAMES + [f'n{k}' for k in range(60)] if large else self.NAMES, nf)
        fs = [self.gen_field(n, depth if not large or k < 3 else 0, prof) for k, n in enumerate(names)]
        # renamed keys, possibly crossing other fields' names, never clashing
        if rng.random() < prof.get('p_keys', .5):
            used_l, used_d = {f.lk for f in fs}, {f.dk for f in fs}
            for f in fs:
                r = rng.random()
                if r < .6:
                    k = rng.choice(self.KEYS)
                    mode = rng.choice(prof.get('key_modes', ['load', 'dump', 'data', 'both']))
                    if mode in ('load', 'data', 'both') and k not in used_l - {f.lk}:
                        if mode == 'data':
                            if k not in used_d - {f.dk}:
                                used_l.discard(f.lk)
                                used_d.discard(f.dk)
                                f.data_key = k
                        else:
                            used_l.discard(f.lk)
                            f.load_key = k
                        used_l.add(f.lk)
                        used_d.add(f.dk)
                    if mode in ('dump', 'both'):
                        k2 = rng.choice(self.KEYS)
                        if k2 not in used_d - {f.dk} and f.data_key is None:
                            used_d.discard(f.dk)
                            f.dump_key = k2
                            used_d.add(f.dk)
            # cyclic exchange of two load keys
            if len(fs) >= 2 and rng.random() < .25 and 'load' in prof.get('key_modes', ['load']):
                a, b = rng.sample(fs, 2)
                if not any((a.load_key, b.load_key, a.data_key, b.data_key)):
                    a.load_key, b.load_key = b.name, a.name
            if len({f.lk for f in fs}) < nf or len({f.dk for f in fs}) < nf:
                for f in fs:
                    f.load_key = f.dump_key = f.data_key = None
        cfg = {}
        if rng.random() < prof.get('p_config', .3):
            if rng.random() < .5:
                cfg['ignore_extra'] = rng.random() < .7
            if rng.random() < prof.get('p_sfrozen', 0):
                cfg['frozen'] = True
            if rng.random() < .3:
                cfg['slotted'] = False
            if rng.random() < .2:
                cfg['add_repr'] = False
            ss.config = cfg
        # move some fields to parents
        own = fs
        if nf >= 2 and rng.random() < prof.get('p_inherit', .25):
            k = rng.randrange(1, nf)
            par = SSpec(f'P{self.uid()}')
            par.own = fs[:k]
            own = fs[k:]
            ss.parents = [par]
            if k >= 2 and rng.random() < .4:
                par2 = SSpec(f'P{self.uid()}')
                j = rng.randrange(1, k)
                par2.own, par.own = par.own[:j], par.own[j:]
                if rng.random() < .5:
                    par.parents = [par2]
                else:
                    ss.parents = [par, par2]
            # config of several bases is not covered: only the class itself or a chain
            if ss.config is None and len(ss.parents) == 1 and rng.random() < .3:
                par.config = {'ignore_extra': rng.random() < .7}
        ss.own = own
        if prof.get('build', True):
            self.build(ss)
            if depth > 0 and rng.random() < prof.get('p_recursive', .1):
                return self.gen_recursive(ss, depth, prof)
        return ss

    def gen_override(self, ss, prof):
        """A subclass that defines one of the fields again, under another key."""
        rng = self.rng
        old = rng.choice(ss.all_fields())
        sub = SSpec(f'O{self.uid()}')
        sub.parents = [ss]
        f = self.gen_field(old.name, 0, dict(prof, validators=.3))
        f.load_key, f.dump_key = f'OVR{self.uid()}', old.dk
        f.data_key = None
        sub.own = [f]
        self.build(sub)
        self.built.pop()
        return sub

    def gen_recursive(self, ss, depth, prof):
        """A subclass that holds an instance of its base class, hence possibly one of itself."""
        rng = self.rng
        taken = {f.name for f in ss.all_fields()} | {f.lk for f in ss.all_fields()} | {f.dk for f in ss.all_fields()}
        names = [n for n in self.NAMES if n not in taken]
        if not names:
            return ss
        sub = SSpec(f'R{self.uid()}')
        sub.parents = [ss]
        pool, self.pool = self.pool, [ss]
        f = self.gen_field(rng.choice(names), depth, dict(prof, kinds=['object'], p_reuse=1))
        self.pool = pool
        if f.default is None and rng.random() < .8:
            f.required = False
        sub.own = [f]
        self.build(sub)
        return sub

    # ---------------------------------------------------------------- builder
    def make_validator(self, v, f):
        w = self

        def body(schema, value, ctx):
            w.cb('raw' if v.raw else 'val', v, schema, value, ctx, w.readable(schema) if w.snap_reads else None)
            if w.use_ctx_state and chash('ctxst', v.id) % 4 == 0:
                ctx.state.update(CTX_STATE)
            if v.fails(value):
                raise w.user_error(v.err, v.tok)
            return RETURNED[chash('ret', v.id) % len(RETURNED)]
        if v.style in ('arg_cls', 'add_cls'):
            if v.raw:
                class MonV(VD.Validator, raw=True):
                    def validate(self, value, ctx):
                        return body(ctx.schema, value, ctx)
            else:
                class MonV(VD.Validator):
                    def validate(self, value, ctx):
                        return body(ctx.schema, value, ctx)
            v.fn = MonV()
        elif v.style in ('arg_fn', 'add_fn', 'post_add'):
            def fn(schema, value, ctx):
                return body(schema, value, ctx)
            v.fn = callable_form(chash('vform', v.id), fn)
        else:
            def meth(self, value, ctx):
                return body(self, value, ctx)
            meth.__name__ = f'check_{v.id}'
            v.fn = meth
        return v.fn

    snap_reads = False

    def readable(self, schema):
        out = {}
        spec = type(schema).__monspec__
        for f in spec.all_fields():
            x = schema.get_value_for(f.name, SENT)
            if x is not SENT:
                out[f.name] = x
        return out

    def user_error(self, kind, tok):
        st = {tok: self.state_for(tok)}
        return chained(make_error(kind, tok, st), tok)

    def make_field(self, f):
        w = self
        base = KIND_CLS[f.kind]
        if f.kind == 'custom' and chash('base', f.fid) % 2:
            # everything about values is replaced
            base = [F.Any, F.String, F.Boolean, F.List, F.Dict, F.Set][chash('base2', f.fid) % 6]
        ns = {}
        if f.kind == 'custom':
            def value_load(self, value, ctx):
                w.cb('load', f, ctx.schema, value, ctx)
                if chash('l', f.fid, canon(value)) % 16 < f.rate_load:
                    raise w.user_error(f.err_load, f.ltok)
                return w.loaded(f, value)

            def value_dump(self, value, ctx):
                w.cb('dump', f, ctx.schema, value, ctx)
                if chash('d', f.fid, canon(value)) % 16 < f.rate_dump:
                    raise w.user_error(f.err_dump, f.dtok)
                return w.dumped(f, value)
            ns.update(value_load=value_load, value_dump=value_dump)
        elif f.kind == 'strip':
            def value_load(self, value, ctx):
                w.cb('load', f, ctx.schema, value, ctx)
                if isinstance(value, str):
                    value = value.strip() + '!'
                return F.String.value_load(self, value, ctx)

            def value_dump(self, value, ctx):
                w.cb('dump', f, ctx.schema, value, ctx)
                return F.String.value_dump(self, value, ctx)
            ns.update(value_load=value_load, value_dump=value_dump)
        elif f.instr:
            def value_load(self, value, ctx):
                w.cb('load', f, ctx.schema, value, ctx)
                return base.value_load(self, value, ctx)

            def value_dump(self, value, ctx):
                w.cb('dump', f, ctx.schema, value, ctx)
                return base.value_dump(self, value, ctx)
            ns.update(value_load=value_load, value_dump=value_dump)
        if f.fmt:
            def format_error(self, code, ctx):
                attr = next((a for a in f.codes() if f.code_of.get(a, V.SENT) == code), f'?{code}')
                w.cb('fmt', f, ctx.schema, None, ctx, attr)
                if f.fmt == 'super':
                    return base.format_error(self, code, ctx)
                return w.fmt_result(f, attr)
            ns['format_error'] = format_error
        cls = type(base)(f'Mon{base.__name__}', (base,), ns) if ns else base
        if ns and chash('sub', f.fid) % 3 == 0:
            # nothing of its own: everything is inherited
            cls = type(base)(f'Sub{base.__name__}', (cls,), {})
        kw = dict(none=f.none, required=f.required, frozen=f.frozen)
        if f.default is not None:
            if f.default[0] == 'call':
                val = f.default[1]

                def dflt(ctx, field):
                    w.cb('default', f, ctx.schema, field, ctx)
                    return val
                kw['default'] = callable_form(chash('dflt', f.fid), dflt)
            else:
                kw['default'] = f.default[1]
        for k in ('load_key', 'dump_key', 'data_key'):
            if getattr(f, k) is not None:
                kw[k] = getattr(f, k)
        n = chash('extras', f.fid) % 5
        if n < 3:
            f.extras = kw['extras'] = {} if n == 2 else {'k': [f.fid], 'metadata': None}
        vs = [self.make_validator(v, f) for v in f.vs if v.style in ('arg_fn', 'arg_cls')]
        if vs:
            kw['validators'] = vs
        args, own = self.type_args(f)
        kw.update(own)
        obj = cls(*args, **kw)
        f.code_of = {a: getattr(obj, a) for a in f.codes()}
        for v in f.vs:
            if v.style in ('add_fn', 'add_cls'):
                obj.add_validator(self.make_validator(v, f), raw=v.raw)
        if self.rng.random() < self.p_copied:
            # the field that is used is a copy, of a free field or of one attached elsewhere
            if self.rng.random() < .5:
                obj = getattr(type(oblate.Schema)('Donor', (oblate.Schema,), {'donor': obj, '__module__': 'oblmon.generated'}), 'donor')
            obj = obj.copy()
        f.real = obj
        return obj

    def copied_spec(self, ss, rng, config=None):
        """A schema of copies of some fields of another one."""
        new = SSpec(f'Copied{self.uid()}')
        ns = {'__module__': 'oblmon.generated', '__monspec__': new}
        if config:
            new.config = dict(config)
            ns['Config'] = type('Config', (oblate.SchemaConfig,), dict(config))
        for f in ss.all_fields():
            if rng.random() < .7:
                g = copy.copy(f)
                g.name = rng.choice([f.name, f.name + '_2', 'z' + f.name])
                g.real = getattr(ss.cls, f.name).copy()
                if rng.random() < .3:
                    g.real = g.real.copy()
                ns[g.name] = g.real
                new.own.append(g)
        if len({f.lk for f in new.own}) < len(new.own) or len({f.dk for f in new.own}) < len(new.own) or not new.own:
            return None
        new.cls = type(oblate.Schema)(new.name, (oblate.Schema,), ns)
        return new

    p_copied = .12
    use_ctx_state = True

    def loaded(self, f, value):
        """What the loader of a custom field gives."""
        n = chash('loaded', f.fid, canon(value)) % 60
        return None if n < 2 else '' if n == 2 else False if n == 3 else ... if n == 4 else ('W', f.fid, value)

    def dumped(self, f, value):
        """What the dumper of a custom field gives."""
        n = chash('dumped', f.fid, canon(value)) % 40
        return None if n < 2 else '' if n == 2 else 0 if n == 3 else [] if n == 4 else ... if n == 5 else ['D', f.fid, value]

    def type_args(self, f):
        """The constructor arguments of the field's own kind."""
        if f.kind in PRIMS or f.kind == 'strip':
            return [], f.p
        if f.kind == 'literal':
            return list(f.node.vals), {}
        if f.kind == 'union':
            return [m.tp for m in f.p['members']], {}
        if f.kind == 'dict':
            return [f.node.k.tp, f.node.v.tp] if f.node.k is not None else [], {}
        if f.kind in ('list', 'set'):
            return [f.node.elem.tp] if f.node.elem is not None else [], {}
        if f.kind in ('typeexpr', 'typeddict'):
            return [f.node.tp], {}
        if f.kind == 'object':
            return [f.sub.cls], {} if f.init_kwargs is None else {'init_kwargs': f.init_kwargs}
        return [], {}

    def type_messages(self, f, value):
        """The messages validate_types reports for a value and the type of a field."""
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                oblate.validate_types({'x': f.node.tp}, {'x': value})
            except oblate.TypeValidationError as e:
                return list(e.errors['x'])
        return []

    def fmt_tok(self, f, attr):
        return f'fmt:{f.fid}:{attr}' + ['', ' ', '{}', '%s', ' \n', '', '', ''][chash('fmtok', f.fid) % 8]

    def fmt_result(self, f, attr):
        tok = self.fmt_tok(f, attr)
        if f.fmt == 'none' or (f.fmt == 'some' and attr not in f.fmt_codes):
            return None
        if f.fmt == 'empty':
            return ''
        if f.fmt in ('str', 'some'):
            return V.StrSub(tok) if chash('strsub', tok) % 4 == 0 else tok
        if f.fmt == 'fe':
            return oblate.FieldError(tok, state=self.state_for(tok))
        if f.fmt == 'sub':
            return MyFE(tok)
        return (MyFE if f.fmt == 'subl' else oblate.FieldError)([tok + '.1', tok + '.2'], state=self.state_for(tok))

    def bases(self, ss):
        """The parents of a schema class, at times with a plain class before or behind them."""
        bases = tuple(p.cls for p in ss.parents) or (oblate.Schema,)
        n = chash('bases', ss.name, len(ss.own)) % 16
        if n > 2:
            return bases
        mixin = type('Mixin', (), {'__slots__': (), 'helper': lambda self: type(self).__name__} if n else {'helper': None, 'Config': type('Config', (), {'frozen': True, 'ignore_extra': True})})
        return (mixin, *bases) if n == 1 or not n and len(ss.own) % 2 else (*bases, mixin)

    def build(self, ss, extra_ns=None):
        if ss.cls is not None:
            return ss.cls
        w = self
        for p in ss.parents:
            self.build(p)
        bases = self.bases(ss)
        ns = {'__module__': 'oblmon.generated', '__monspec__': ss}
        later = []
        for f in ss.own:
            ns[f.name] = self.make_field(f)
            for v in f.vs:
                if v.style in ('meth_obj', 'meth_name'):
                    fn = self.make_validator(v, f)
                    dec = VD.field(f.real if v.style == 'meth_obj' else f.name, raw=v.raw)
                    later.append((f'check_{v.id}', dec(fn)))
        for k, m in later:
            ns[k] = m
        if ss.config is not None:
            ns['Config'] = type('Config', (oblate.SchemaConfig,), dict(ss.config))
        if ss.hooks and not ss.parents:
            def preprocess_data(self, data):
                spec = type(self).__monspec__
                w.cb('pre', spec, self, data, None)
                return spec.pre(data) if spec.pre else data

            def __schema_post_init__(self):
                w.cb('post', type(self).__monspec__, self, None, None)
            ns['preprocess_data'] = preprocess_data
            ns['__schema_post_init__'] = __schema_post_init__
        if extra_ns:
            ns.update(extra_ns)
        ss.cls = type(oblate.Schema)(ss.name, bases, ns)
        self.built.append(ss)
        for c in ss.cls.__mro__[1:]:
            if '__monspec__' in c.__dict__:
                self.children.setdefault(id(c.__monspec__), []).append(ss)
        for f in ss.own:
            for v in f.vs:
                if v.style == 'post_add':
                    getattr(ss.cls, f.name).add_validator(self.make_validator(v, f), raw=v.raw)
        return ss.cls

    # ---------------------------------------------------------------- value generation
    def good_value(self, f, rng):
        """A raw value the field's own type check should accept (not None)."""
        k = f.kind
        if k == 'string':
            if f.p['strict'] or rng.random() < .6:
                return rng.choice(V.STRS) if rng.random() < .9 else V.StrSub('sub')
            return V.anyval(rng, 1)
        if k == 'strip':
            return rng.choice(['  a ', 'b', ' ', '\tx\n', '']) if f.p['strict'] or rng.random() < .7 else rng.choice([5, 2.5, True])
        if k == 'integer':
            if f.p['strict'] or rng.random() < .5:
                return rng.choice(V.INTS + [True, V.IntSub(5), V.Colour.RED])
            return rng.choice(['12', ' 7 ', '-3', 2.9, -1.5, b'12', '1_000', V.Intable(3), V.Indexable(4)])
        if k == 'float':
            if f.p['strict'] or rng.random() < .5:
                return rng.choice(V.FLOATS + [V.FloatSub(1.25)])
            return rng.choice(['1.5', 'nan', 'inf', '-inf', '-Infinity', '1e3', 3, True, V.Floatable(2), V.INTS[5], ' 2 '])
        if k == 'boolean':
            if f.p['strict'] or rng.random() < .4:
                return rng.random() < .5
            tv = list(f.p.get('true_values', F.Boolean.TRUE_VALUES)) + list(f.p.get('false_values', F.Boolean.FALSE_VALUES))
            return rng.choice(tv + [1, 0, V.TrueLike(1)]) if tv else True
        if k in ('any', 'custom'):
            if self.built and not self.inside and rng.random() < .04:
                # an instance of a schema, possibly of the one the field belongs to
                self.inside = True
                v = self.make_instance(rng.choice(self.built[-3:]), rng)
                self.inside = False
                if v is not None:
                    return v
            if rng.random() < .1:
                return rng.choice([V.EqualsAll, V.Vector])(rng.randrange(4))
            v = V.anyval(rng, 2)
            return 'x' if v is None else v
        if k == 'object':
            if rng.random() < .2:
                inst = self.make_instance(rng.choice([f.sub, *(self.children.get(id(f.sub), ()) if self.subclass_values else ())]), rng)
                if inst is not None:
                    return inst
            return self.gen_data(f.sub, rng, 0)
        v = f.node.gen(rng)
        return v

    def make_instance(self, ss, rng):
        rec, self.recording = self.recording, False
        step, self.on_step = self.on_step, None
        try:
            d = self.gen_data(ss, rng, 0)
            mobj, errs, _ = self.m_construct(ss, d)
            if errs:
                return None
            return ss.cls(d, state=rng.choice([None, None, 'st', [1], State('inst')]))
        finally:
            self.recording = rec
            self.on_step = step

    def bad_value(self, f, rng):
        if f.kind == 'object':
            r = rng.random()
            if r < .6:
                return self.gen_data(f.sub, rng, rng.choice([1, 1, 2, 3]))
            if r < .75 and self.subclass_values and self.built and not self.inside:
                # an instance of a parent class or of another schema
                self.inside = True
                v = self.make_instance(rng.choice((f.sub.parents if rng.random() < .6 else None) or self.built[-4:]), rng)
                self.inside = False
                if v is not None:
                    return v
            return rng.choice([5, 'x', [], [('a', 1)], None, {1}, V.Tagged(1), {}, object])
        if f.node is not None and rng.random() < .8:
            return f.node.near(rng)
        return V.anyval(rng, 2)

    def accepts(self, f, raw):
        errs = []
        mf = MF(f, raw)
        self.m_value(f, raw, None, mf, errs)
        return not errs

    def ok_value(self, f, rng, tries=6):
        """A value the model accepts including validators, if one is found."""
        if f.kind == 'object':
            tries = 2
        if f.rate_load >= 16 or any(v.rate >= 16 for v in f.vs) or self.gen_count > 300:
            tries = 1
        for _ in range(tries):
            if f.none and rng.random() < .12:
                v = None
            else:
                v = self.good_value(f, rng)
            if self.accepts(f, v):
                return v, True
        return v, False

    def fail_value(self, f, rng, tries=6):
        for _ in range(tries):
            v = self.bad_value(f, rng) if rng.random() < .7 else self.good_value(f, rng)
            if not self.accepts(f, v):
                return v, True
        return v, False

    gen_depth = gen_count = 0
    twins = True
    exact_twins = False

    def unknown_key(self, fs, rng):
        """A key that is probably the load key of no field."""
        if fs and rng.random() < .4:
            f = rng.choice(fs)
            return rng.choice([f.dk, f.dk, f.name, f.name, f.lk.upper(), f.lk.lower(), f.lk + ' ', '_' + f.lk, f.lk.replace(' ', '_'), f.lk.strip('_'), f.lk.encode(), (f.lk,)])
        return rng.choice(['zz', 'extra', 0, '', None, 'A', 'a', 'id', ('t', 1), 'Name', 'ignore_extra', 'data'])

    def gen_data(self, ss, rng, nbad=0, p_opt=.6, extra=True):
        """A data mapping with about nbad defects."""
        items = []
        fs = list(ss.all_fields())
        if not self.gen_depth:
            self.gen_count = 0
        self.gen_count += 1
        for f in fs:
            if f.kind == 'object' and not f.req and self.gen_count > 600:
                continue  # grown large enough
            if f.req or rng.random() < p_opt:
                self.gen_depth += 1
                try:
                    v, ok = self.ok_value(f, rng)
                finally:
                    self.gen_depth -= 1
                if not ok and not f.req:
                    continue
                if items and f.kind != 'object' and rng.random() < .12:
                    # the very object another field is given
                    it = rng.choice(items)
                    v2 = it[1]
                    if (it[2] is None or it[2].kind != 'object') and not hasattr(type(v2), '__monspec__') and not any(x in repr(canon(v2)) for x in ('Vector', 'EqualsAll')) and self.accepts(f, v2):
                        v = v2
                items.append([f.lk, v, f])
        if self.twins and rng.random() < .5:
            insts = [it for it in items if hasattr(type(it[1]), '__monspec__')]
            if insts:
                inst = rng.choice(insts)
                for it in items:
                    if it is inst or it[2].kind not in ('any', 'custom', 'object') or it[2].kind == 'object' and self.exact_twins and it[2].sub.cls is not type(inst[1]):
                        continue
                    if rng.random() < .5 and self.accepts(it[2], inst[1]):
                        it[1] = inst[1]
        for _ in range(nbad):
            r = rng.random()
            if r < .2 and extra:
                items.append([self.unknown_key(fs, rng), V.atom(rng) if rng.random() < .6 else V.anyval(rng, 2), None])
                if rng.random() < .15:
                    # different keys with the same text
                    for k in rng.choice([(1, '1'), (None, 'None'), (0, '0'), (True, 'True'), ((1,), '(1,)'), (b'a', "b'a'"), (V.Shape.DOT, 'Shape.DOT'), (2.5, '2.5', V.IntSub(2), '2')]):
                        items.append([k, V.atom(rng), None])
            elif r < .4 and items:
                items.pop(rng.randrange(len(items)))
            elif r < .5:
                if items:
                    it = rng.choice(items)
                    it[1] = None
            elif fs:
                f = rng.choice(fs)
                items = [it for it in items if it[2] is not f]
                v, ok = self.fail_value(f, rng)
                items.append([f.lk, v, f])
        rng.shuffle(items)
        d = {}
        for k, v, f in items:
            d[V.StrSub(k) if isinstance(k, str) and rng.random() < .03 else k] = v
        return V.wrap_mapping(rng, d, .15)

    # ---------------------------------------------------------------- reference model
    def exp_user(self, f, key, kind, tok, value, origin, final=SENT):
        """Errors expected for an exception of user code."""
        ctx = (f, value)
        st = self.state_for(tok)
        E = lambda m, s=None: Exp(key, f, m, s, ctx, origin)
        if kind in ('VE', 'AE', 'SUBVE', 'SUBAE', 'FE', 'FEO', 'VEC', 'AEX'):
            return [E(('text', tok))]
        if kind in ('VEB', 'VEL'):
            return [E(('text', ' ' if kind == 'VEB' else '\n ' + tok))]
        if kind == 'FEB':
            return [E(('text', '\n'), st)]
        if kind == 'VE2':
            return [E(('text', str(ValueError(tok, 5))))]
        if kind == 'VE3':
            return [E(('text', str(ValueError(tok, 'more'))))]
        if kind == 'AE2':
            return [E(('text', str([tok, 'more'])))]
        if kind == 'UDE':
            return [E(('text', str(UnicodeDecodeError('utf-8', b'\xff', 0, 1, tok))))]
        if kind in ('VE0', 'AE0'):
            return self.exp_code(f, key, 'ERR_VALIDATION_FAILED', value, origin)
        if kind in ('FES', 'SUBFE', 'FEVE', 'FEAE', 'FEQ'):
            return [E(('text', tok), st)]
        if kind in ('FEL', 'FEQL'):
            return [E(('text', f'{tok}.{i}'), st) for i in (1, 2, 3)]
        if kind in ('FET', 'FENT', 'FESET', 'FEIN'):
            return [E(('text', f'{tok}.{i}'), st) for i in (1, 2)]
        if kind == 'FELN':
            return [E(('text', x), st) for x in (tok, 'None', '0', '', 'False')]
        if kind == 'FED':
            return [E(('struct', {'p': tok, 'q': [tok, '3', {'z': 'None'}]}), st)]
        if kind == 'FELD':
            return [E(('text', tok + '.1'), st), E(('struct', {'p': tok, 'q': [tok, '3', {'z': 'None'}]}), st)]
        if kind == 'FENEST':
            return [E(('struct', {}), st)]
        raise KeyError(kind)

    def exp_code(self, f, key, attr, value, origin='code'):
        ctx = None if attr == 'ERR_FIELD_REQUIRED' else (f, value)
        tok = self.fmt_tok(f, attr)
        if f.fmt in (None, 'none', 'super') or (f.fmt == 'some' and attr not in f.fmt_codes):
            return [Exp(key, f, ('anym',) if (f.kind, attr) in MULTI_MSG else ('any',), None, ctx, f'{origin}:{attr}')]
        if f.fmt in ('str', 'some', 'sub'):
            return [Exp(key, f, ('text', tok), None, ctx, f'{origin}:{attr}')]
        if f.fmt == 'empty':
            return [Exp(key, f, ('text', ''), None, ctx, f'{origin}:{attr}')]
        st = self.state_for(tok)
        if f.fmt == 'fe':
            return [Exp(key, f, ('text', tok), st, ctx, f'{origin}:{attr}')]
        return [Exp(key, f, ('text', f'{tok}.{i}'), st, ctx, f'{origin}:{attr}') for i in (1, 2)]

    def m_load(self, f, raw, mf):
        """(value, None) or (None, [Exp])."""
        k = f.kind
        C = lambda attr: (None, self.exp_code(f, f.lk, attr, raw))
        if k == 'strip':
            if isinstance(raw, str):
                return raw.strip() + '!', None
            if f.p['strict']:
                return C('ERR_INVALID_DATATYPE')
            return str(raw), None
        if k in PRIMS:
            typ = {'string': str, 'integer': int, 'float': float, 'boolean': bool}[k]
            if isinstance(raw, typ):
                return raw, None
            if f.p['strict']:
                return C('ERR_INVALID_DATATYPE')
            if k == 'boolean':
                s = str(raw)
                if s in tuple(f.p.get('true_values', ('TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1'))):
                    return True, None
                if s in tuple(f.p.get('false_values', ('FALSE', 'False', 'false', 'NO', 'No', 'no', '0'))):
                    return False, None
                return C('ERR_COERCION_FAILED')
            if k == 'string':
                return str(raw), None
            try:
                return typ(raw), None
            except Exception:
                return C('ERR_COERCION_FAILED')
        if k == 'any':
            return raw, None
        if k == 'custom':
            if chash('l', f.fid, canon(raw)) % 16 < f.rate_load:
                return None, self.exp_user(f, f.lk, f.err_load, f.ltok, raw, 'load')
            return self.loaded(f, raw), None
        if k == 'object':
            spec = getattr(type(raw), '__monspec__', None)
            if spec is not None:
                if isinstance(raw, f.sub.cls):
                    return raw, None
                return C('ERR_INVALID_DATATYPE')
            if isinstance(raw, collections.abc.Mapping):
                kw = f.init_kwargs or {}
                mobj, errs, fr = self.m_construct(f.sub, raw, **kw)
                mf.sub = fr
                if errs:
                    return None, [Exp(f.lk, f, ('nested',), None, (f, raw), 'nested', errs)]
                return mobj, None
            return C('ERR_INVALID_DATATYPE')
        if k in ('dict', 'typeddict', 'list', 'set'):
            typ = {'dict': dict, 'typeddict': dict, 'list': list, 'set': set}[k]
            if not isinstance(raw, typ):
                return C('ERR_INVALID_DATATYPE')
            return (raw, None) if f.node.match(raw) else C('ERR_TYPE_VALIDATION_FAILED')
        if k in ('literal', 'union'):
            return (raw, None) if f.node.match(raw) else C('ERR_INVALID_VALUE')
        if k == 'typeexpr':
            return (raw, None) if f.node.match(raw) else C('ERR_TYPE_VALIDATION_FAILED')
        raise KeyError(k)

    def m_value(self, f, raw, mobj, mf, errs):
        """Load one value: append expected errors, fill the record; True if loaded."""
        out = []
        if raw is None:
            if f.none:
                mf.loaded, mf.final = True, None
            else:
                out += self.exp_code(f, f.lk, 'ERR_NONE_DISALLOWED', None)
        else:
            v, e = self.m_load(f, raw, mf)
            if e:
                out += e
            else:
                mf.loaded, mf.final = True, v
        for v in f.raws():
            mf.rawv.append(v)
            if v.fails(raw):
                out += self.exp_user(f, f.lk, v.err, v.tok, raw, f'raw {v.id}')
        if mf.loaded and raw is not None:
            for v in f.ords():
                mf.ordv.append(v)
                if v.fails(mf.final):
                    out += self.exp_user(f, f.lk, v.err, v.tok, raw, f'val {v.id}', mf.final)
        for e in out:
            e.mo = mobj
        errs += out
        return not out

    def m_construct(self, ss, data, ignore_extra=None, state=None):
        fr = Frame(ss, 'init', data)
        if self.frames is not None:
            self.frames.append(fr)
        mobj = MObj(ss, state)
        fr.mobj = mobj
        errs = []
        if ss.pre:
            data = ss.pre(data)
        ie = ss.conf()['ignore_extra'] if ignore_extra is None else ignore_extra
        keys = ss.by_key()
        seen = set()
        for k, raw in data.items():
            f = keys.get(k) if not isinstance(k, (float,)) else keys.get(k)
            if f is None:
                if not ie:
                    e = Exp(k, None, ('any',), None, None, 'unknown')
                    e.mo = mobj
                    errs.append(e)
                continue
            seen.add(f.fid)
            mf = MF(f, raw)
            fr.mfs.append(mf)
            self.m_value(f, raw, mobj, mf, errs)
            if mf.loaded:
                mobj.vals[f.name] = mf.final
        for f in ss.all_fields():
            if f.fid in seen:
                continue
            if f.req:
                es = self.exp_code(f, f.lk, 'ERR_FIELD_REQUIRED', SENT)
                for e in es:
                    e.mo = mobj
                errs += es
            if f.default is not None:
                mobj.vals[f.name] = f.default[1]
                if f.default[0] == 'call':
                    fr.defaults.append(f)
        fr.ok = not errs
        mobj.initialized = fr.ok
        return mobj, errs, fr

    def m_update(self, mobj, data, ignore_extra=None):
        """('frozen', entity) | ('errors', [Exp]) | ('ok', None); applies on success."""
        ss = mobj.sspec
        fr = Frame(ss, 'update', data)
        fr.mobj = mobj
        if self.frames is not None:
            self.frames.append(fr)
        if ss.conf()['frozen']:
            return 'frozen', None, fr
        ie = ss.conf()['ignore_extra'] if ignore_extra is None else ignore_extra
        keys = ss.by_key()
        for k in data:
            f = keys.get(k)
            if f is not None and f.frozen:
                return 'frozen', f, fr
        errs, new = [], {}
        for k, raw in data.items():
            f = keys.get(k)
            if f is None:
                if not ie:
                    e = Exp(k, None, ('any',), None, None, 'unknown')
                    e.mo = mobj
                    errs.append(e)
                continue
            mf = MF(f, raw)
            fr.mfs.append(mf)
            self.m_value(f, raw, mobj, mf, errs)
            if mf.loaded:
                new[f.name] = mf.final
        if errs:
            return 'errors', errs, fr
        mobj.vals.update(new)
        fr.ok = True
        return 'ok', None, fr

    def m_assign(self, mobj, f, raw):
        ss = mobj.sspec
        fr = Frame(ss, 'assign', raw)
        fr.mobj = mobj
        if self.frames is not None:
            self.frames.append(fr)
        if ss.conf()['frozen']:
            return 'frozen', None, fr
        if f.frozen:
            return 'frozen', f, fr
        errs = []
        mf = MF(f, raw)
        fr.mfs.append(mf)
        self.m_value(f, raw, mobj, mf, errs)
        if errs:
            return 'errors', errs, fr
        mobj.vals[f.name] = mf.final
        fr.ok = True
        return 'ok', None, fr

    def m_dump(self, obj, include=None, exclude=None):
        """(dict, []) or (None, [Exp]) for a model object or real instance."""
        ss, pairs = fields_of(obj)
        out, errs = {}, []
        for f, v in pairs:
            if include is not None and f.name not in include:
                continue
            if exclude is not None and f.name in exclude:
                continue
            if f.kind == 'custom':
                if chash('d', f.fid, canon(v)) % 16 < f.rate_dump:
                    es = self.exp_user(f, f.lk, f.err_dump, f.dtok, v, 'dump')
                else:
                    out[f.dk] = self.dumped(f, v)
                    continue
            elif f.kind == 'object' and v is not None:
                d, es = self.m_dump(v)
                if not es:
                    out[f.dk] = d
                    continue
                es = [Exp(f.lk, f, ('nested',), None, (f, v), 'nested', es)]
            else:
                out[f.dk] = v
                continue
            for e in es:
                e.mo = obj
            errs += es
        return (None, errs) if errs else (out, [])

    # ---------------------------------------------------------------- running operations
    def _run(self, r, fn):
        self.events = []
        try:
            r.real = fn()
            r.ok = True
        except BaseException as e:
            r.exc = e
        r.events = self.events
        self.events = []
        return r

    def construct(self, ss, data, **kw):
        r = Result()
        r.op, r.ss, r.data, r.kw = 'construct', ss, data, kw
        self.frames = r.frames
        r.mobj, r.merrs, r.frame = self.m_construct(ss, data, **kw)
        self.frames = None
        self._run(r, lambda: ss.cls(data, **kw))
        r.instance = r.real
        if r.ok and not r.merrs:
            bind(r.real, r.mobj)
        return r

    def update(self, real, mobj, data, **kw):
        r = Result()
        r.op, r.ss, r.data, r.kw = 'update', mobj.sspec, data, kw
        self.frames = r.frames
        r.verdict, r.merrs, r.frame = self.m_update(mobj, data, **kw)
        self.frames = None
        r.mobj, r.instance = mobj, real
        self._run(r, lambda: real.update(data, **kw))
        if r.ok and r.verdict == 'ok':
            bind(real, mobj)
        return r

    def assign(self, real, mobj, f, raw):
        r = Result()
        r.op, r.ss, r.data, r.kw = f'assign {f.name}', mobj.sspec, raw, {}
        self.frames = r.frames
        r.verdict, r.merrs, r.frame = self.m_assign(mobj, f, raw)
        self.frames = None
        r.mobj, r.instance = mobj, real
        self._run(r, lambda: setattr(real, f.name, raw))
        if r.ok and r.verdict == 'ok':
            bind(real, mobj)
        return r

    def copy_check(self, real, mobj):
        c = real.copy()
        cmp_values(c, mobj, 'copy:')
        return c

    def dump(self, real, mobj, **kw):
        r = Result()
        r.op, r.ss, r.data, r.kw = 'dump', mobj.sspec, None, kw
        r.mobj, r.instance = mobj, real
        r.mvalue, r.merrs = self.m_dump(mobj, **kw)
        self._run(r, lambda: real.dump(**kw))
        return r


def bind(real, mobj):
    """Associate model objects with the real instances they stand for."""
    mobj.real = real
    for f in mobj.sspec.all_fields():
        v = mobj.vals.get(f.name)
        if isinstance(v, MObj):
            x = real.get_value_for(f.name, SENT)
            if isinstance(x, oblate.Schema):
                bind(x, v)


def instances(r):
    """id(model object) -> real instance for every frame of an operation."""
    out = {}
    pre = {id(ev.value): ev.schema for ev in r.events if ev.kind == 'pre'}
    for fr in r.frames:
        if fr.op == 'init' and id(fr.data) in pre:
            out[id(fr.mobj)] = pre[id(fr.data)]
        elif fr.op != 'init':
            out[id(fr.mobj)] = r.instance
    return out


def fields_of(obj):
    if isinstance(obj, MObj):
        return obj.sspec, [(f, obj.vals[f.name]) for f in obj.sspec.all_fields() if f.name in obj.vals]
    spec = type(obj).__monspec__
    out = []
    for f in spec.all_fields():
        x = obj.get_value_for(f.name, SENT)
        if x is not SENT:
            out.append((f, x))
    return spec, out


def vals_of(real):
    """{field name: canonical value} of a real instance through public reads."""
    return {f.name: canon(x) for f, x in fields_of(real)[1]}


def mvals(mobj):
    return {n: canon(v) for n, v in mobj.vals.items()}


def cmp_values(real, mobj, what='', r=None, **info):
    a, b = vals_of(real), mvals(mobj)
    check(a == b, f'{what} field values differ from the model', real={k: a.get(k) for k in set(a) | set(b) if a.get(k) != b.get(k)},
          expected={k: b.get(k) for k in set(a) | set(b) if a.get(k) != b.get(k)}, r=r, **info)


def is_nested(m):
    return isinstance(m, dict) and bool(m) and all(isinstance(x, list) and x and all(isinstance(e, oblate.FieldError) for e in x) for x in m.values())


def flat_nested(m):
    return [e for x in m.values() for e in x]


def norm(x):
    """raw() form of a message structure."""
    if isinstance(x, oblate.FieldError):
        return norm(x.message)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return str(x)


def keyid(k):
    if isinstance(k, str):
        k = str.__str__(k)  # keys are compared by equality
    return repr(canon(k))


def match_errors(real, exp, pairs=None, path=''):
    """Match FieldErrors with expectations; None or a description of the difference."""
    R, E = collections.defaultdict(list), collections.defaultdict(list)
    for e in real:
        R[keyid(e.key)].append(e)
    for e in exp:
        E[keyid(e.key)].append(e)
    if set(R) != set(E):
        return f'{path}: reported keys {sorted(R)} expected {sorted(E)}'
    for k in E:
        rs, es = list(R[k]), sorted(E[k], key=lambda e: {'text': 0, 'struct': 0, 'nested': 1, 'any': 2, 'anym': 3}[e.msg[0]])
        for e in es:
            hit = None
            for i, r in enumerate(rs):
                m = r.message
                if e.msg[0] == 'text' and not isinstance(m, (dict, list)) and str(m) == e.msg[1]:
                    hit = i
                elif e.msg[0] == 'struct' and isinstance(m, dict) and not is_nested(m) and norm(m) == e.msg[1]:
                    hit = i
                elif e.msg[0] == 'nested' and is_nested(m):
                    sub = []
                    d = match_errors(flat_nested(m), e.sub, sub, f'{path}/{e.key}')
                    if d is not None:
                        return d
                    if pairs is not None:
                        pairs += sub
                    hit = i
                elif e.msg[0] in ('any', 'anym') and isinstance(m, str) and m and not m.startswith(('tok:', 'fmt:')):
                    hit = i
                if hit is not None:
                    if e.msg[0] in ('text', 'struct') and r.state is not e.state:
                        # several errors of a key may say the same: prefer the one with the state of this one
                        hit = next((j for j in range(i + 1, len(rs)) if rs[j].state is e.state and norm(rs[j]) == norm(r)), hit)
                    break
            if hit is None:
                return f'{path}/{e.key}: expected error {e!r} not among {[norm(r) for r in rs]}'
            r = rs.pop(hit)
            if pairs is not None:
                pairs.append((r, e))
        if rs:
            if not any(e.msg[0] == 'anym' for e in es):
                return f'{path}/{k}: unexpected extra errors {[norm(r) for r in rs]}'
            anym = next(e for e in es if e.msg[0] == 'anym')
            for r in rs:
                if not isinstance(r.message, str) or not r.message or r.message.startswith(('tok:', 'fmt:')):
                    return f'{path}/{k}: unexpected extra error {norm(r)!r}'
                if pairs is not None:
                    pairs.append((r, anym))
    return None


def match_raw(raw, exp, path=''):
    """Match raw() output with expectations."""
    if type(raw) is not dict:
        return f'{path}: report is a {type(raw).__name__}'
    E = collections.defaultdict(list)
    for e in exp:
        E[keyid(e.key)].append(e)
    R = {keyid(k): v for k, v in raw.items()}
    if set(R) != set(E):
        return f'{path}: reported keys {sorted(R)} expected {sorted(E)}'
    for k in E:
        rs = R[k]
        if not isinstance(rs, list) or not rs:
            return f'{path}/{k}: not a non-empty list: {rs!r}'
        rs = list(rs)
        es = sorted(E[k], key=lambda e: {'text': 0, 'struct': 0, 'nested': 1, 'any': 2, 'anym': 3}[e.msg[0]])
        for e in es:
            hit = None
            last = None
            for i, m in enumerate(rs):
                if e.msg[0] in ('text', 'struct') and m == e.msg[1]:
                    hit = i
                elif e.msg[0] == 'nested' and isinstance(m, dict):
                    last = match_raw(m, e.sub, f'{path}/{e.key}')
                    if last is None:
                        hit = i
                elif e.msg[0] in ('any', 'anym') and isinstance(m, str) and m and not m.startswith(('tok:', 'fmt:')):
                    hit = i
                if hit is not None:
                    break
            if hit is None:
                return last or f'{path}/{e.key}: expected {e!r} not among {rs!r}'
            rs.pop(hit)
        if rs and not any(e.msg[0] == 'anym' for e in es):
            return f'{path}/{k}: unexpected extra messages {rs!r}'
        for m in rs:
            if not isinstance(m, str) or m.startswith(('tok:', 'fmt:')):
                return f'{path}/{k}: unexpected extra message {m!r}'
    return None


def tb_of(e):
    import traceback
    if e is None or isinstance(e, oblate.ValidationError):
        return ''
    return ''.join(traceback.format_exception(e)[-6:])


def check_verdict(r):
    """Accepted / rejected as the model says, and with the documented exception type."""
    if r.op == 'construct' or r.op == 'dump':
        exp = 'errors' if r.merrs else 'ok'
    else:
        exp = r.verdict
    if exp == 'ok':
        check(r.ok, f'{r.op} failed where the model accepts', r=r)
    elif exp == 'errors':
        check(not r.ok, f'{r.op} succeeded where the model rejects', r=r)
        check(isinstance(r.exc, oblate.ValidationError), f'{r.op} raised {type(r.exc).__name__} instead of ValidationError', r=r)
    else:
        check(not r.ok, f'{r.op} succeeded on frozen', r=r)
        check(isinstance(r.exc, oblate.FrozenError), f'{r.op} raised {type(r.exc).__name__} instead of FrozenError', r=r)
    return exp


def check_report(r):
    diff = match_errors(r.exc.errors, r.merrs)
    check(diff is None, f'{r.op}: reported errors differ: {diff}', r=r)
    diff = match_raw(r.exc.raw(), r.merrs)
    check(diff is None, f'{r.op}: raw() differs: {diff}', raw=r.exc.raw(), r=r)
