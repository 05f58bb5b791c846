"""C23: exceptions injected at every user callback; conversion, completeness and pass-through."""
import asyncio
import collections
import warnings

import oblate
from oblate import fields as F

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, Exp, Foreign, ForeignBase, World, check_report, check_verdict, cmp_values, decorated, make_error, match_errors, match_raw

ID = 'C23'
QUICK, THOROUGH = 2600, 60000
RULE = ('random nested schemas and operations of every kind, run once to find all callback positions, then again with 1-4 convertible errors (19 kinds) or one of 16 foreign exceptions injected at each sampled position '
        '(preprocess, load, raw/ordinary validator, default, formatter, post-init, dump; hostile mappings, selections, states and operand objects), followed by known-answer operations; '
        'distinct by (operation, position kind, nesting, exception kind, number injected)')
NEED = ['converted', 'passed_through', 'construct', 'update', 'assign', 'dump', 'nested', 'multi', 'pre', 'post', 'default', 'load', 'raw', 'val', 'fmt', 'dump_cb', 'others_ran', 'works_after', 'hostile_objects', 'base_exceptions', 'alternatives', 'foreign_among_converted', 'escaped', 'own_exceptions']


class MyLookup(LookupError):
    pass


class MyOblate(oblate.OblateException):
    pass


class Stop(KeyboardInterrupt):
    pass


FOREIGN = [Foreign, Foreign, ForeignBase, Stop, KeyError, LookupError, AttributeError, TypeError, RuntimeError, GeneratorExit, RecursionError, MyLookup, MyOblate, IndexError, NotImplementedError, OSError,
           ZeroDivisionError, OverflowError, ArithmeticError, FloatingPointError, BufferError, EOFError, ImportError, TimeoutError, SyntaxError, ReferenceError, NameError, BlockingIOError,
           asyncio.CancelledError, SystemExit, StopAsyncIteration, MemoryError, Warning, oblate.TypeValidationError]


def mk(cls, n):
    if cls is oblate.TypeValidationError:
        try:
            oblate.validate_types({'k': int}, {'k': 'x'})
        except oblate.TypeValidationError as e:
            return e
    return cls(f'foreign {n}')


def tree(fr, path=()):
    """All frames below a frame with their key paths."""
    yield path, fr
    for mf in fr.mfs:
        if mf.sub is not None:
            yield from tree(mf.sub, path + (mf.f.fid,))


class Probe:
    """Runs an operation with exceptions planned at (path, kind, spec) positions."""
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.at, self.keep, self.data = {}, [], {}
        self.ran, self.fired = [], []

    def place(self, schema):
        return self.at.get(id(schema))

    def __call__(self, kind, spec, schema, value, ctx):
        if kind == 'pre' and id(value) in self.data:
            self.at[id(schema)] = self.data[id(value)]
        self.keep.append(schema)
        p = self.place(schema)
        sid = getattr(spec, 'id', None) or getattr(spec, 'fid', None) or spec.name
        k = (p, kind, sid)
        self.ran.append((k, spec))
        if k in self.plan and k not in [x[0] for x in self.fired]:
            e = self.plan[k]()
            self.fired.append((k, spec, value, e))
            raise e


def inst_paths(real, path=()):
    """Real nested instances below an instance with their paths (None if at several places)."""
    out = {id(real): path}
    spec = type(real).__monspec__
    for f in spec.all_fields():
        if f.kind == 'object':
            x = real.get_value_for(f.name, None)
            if isinstance(x, oblate.Schema):
                for k, p in inst_paths(x, path + (f.fid,)).items():
                    out[k] = None if k in out else p
    return out


class Op:
    """A repeatable operation: fresh run each time."""
    def __init__(self, w, ss, rng):
        self.w, self.ss, self.rng = w, ss, rng

    def prepare(self, kind, good, real, mobj):
        w, rng = self.w, self.rng
        self.kind, self.real, self.mobj = kind, real, mobj
        if kind == 'construct':
            self.data = good
            m, errs, fr = w.m_construct(self.ss, good)
            self.paths = {id(f.data): p for p, f in tree(fr)}
            self.ok = not errs
        elif kind == 'update':
            fs = [f for f in self.ss.all_fields() if not f.frozen]
            self.data = {}
            for f in rng.sample(fs, rng.randrange(1, len(fs) + 1)) if fs else []:
                v, ok = w.ok_value(f, rng)
                if ok:
                    self.data[f.lk] = v
            m = V.MObj(self.ss)
            v, errs, fr = w.m_update(m, self.data)
            self.paths = {id(f.data): p for p, f in tree(fr) if p}
            self.ok = v == 'ok' and self.data
        elif kind == 'assign':
            fs = [f for f in self.ss.all_fields() if not f.frozen]
            self.ok = False
            if fs:
                self.f = rng.choice(fs)
                self.data, ok = w.ok_value(self.f, rng)
                m = V.MObj(self.ss)
                v, errs, fr = w.m_assign(m, self.f, self.data)
                self.paths = {id(f.data): p for p, f in tree(fr) if p}
                self.ok = ok and v == 'ok'
        else:
            self.paths = {}
            mv, errs = w.m_dump(mobj)
            self.ok = not errs
        return self.ok

    def run(self, plan):
        p = Probe(self.w, plan)
        p.data = self.paths
        if self.kind != 'construct':
            target = self.real.copy()
            p.keep.append(target)
            p.at = inst_paths(target) if self.kind == 'dump' else {id(target): ()}
        else:
            target = None
        self.w.on_step = p
        p.result = p.exc = None
        try:
            if self.kind == 'construct':
                p.result = target = self.ss.cls(self.data)
            elif self.kind == 'update':
                target.update(self.data)
            elif self.kind == 'assign':
                setattr(target, self.f.name, self.data)
            else:
                p.result = target.dump()
        except BaseException as e:
            p.exc = e
        finally:
            self.w.on_step = None
        p.target = target
        return p


def expected(w, op, fired):
    """Error expectations for converted errors fired at known places."""
    fspec = {f.fid: f for s in classes(op.ss).values() for f in s.all_fields()}
    top = {}

    def node(path):
        es = top
        for fid in path:
            es = es.setdefault(('sub', fid), {})
        return es
    for (path, kind, sid), spec, value, (ekind, tok) in fired:
        f = spec.owner if kind in ('raw', 'val') else spec
        node(path).setdefault('own', []).extend(w.exp_user(f, f.lk, ekind, tok, value, kind))

    def flat(es):
        out = list(es.get('own', []))
        for k, x in es.items():
            if k != 'own':
                f = fspec[k[1]]
                out.append(Exp(f.lk, f, ('nested',), None, None, 'nested', flat(x)))
        return out
    return flat(top)


def classes(ss, out=None):
    out = out if out is not None else {}
    if ss.name not in out:
        out[ss.name] = ss
        for f in ss.all_fields():
            if f.sub is not None:
                classes(f.sub, out)
        for p in ss.parents:
            classes(p, out)
    return out


def must_run(clean, fired, kind):
    """Callback positions of the clean run that still have to happen."""
    bad_load, bad_any, cut = set(), set(), set()
    for (path, k, sid), spec, value, e in fired:
        fid = (spec.owner if k in ('raw', 'val') else spec).fid
        if k == 'load':
            bad_load.add((path, fid))
        if k in ('load', 'dump'):
            cut.add(path + (fid,))                      # the nested schema is not processed
        for j in range(len(path) + 1):
            bad_any.add(path[:j])                       # these instances do not finish
        for j in range(len(path)):
            bad_load.add((path[:j], path[j]))           # the nested field has no value
    out = collections.Counter()
    for (path, k, sid), spec in clean:
        if path is None or any(path[:j] in cut for j in range(len(path) + 1)):
            continue
        if k == 'post' and path in bad_any:
            continue
        if k == 'val' and (path, spec.owner.fid) in bad_load:
            continue
        out[path, k, sid] += 1
    return out


def known_answers(w, ss, good, rng, mon, op):
    """The library works normally: succeeding and failing operations give the modelled outcome."""
    for d in (good, w.gen_data(ss, rng, 2)):
        r = w.construct(ss, d)
        if check_verdict(r) == 'errors':
            check_report(r)
            check(type(r.exc.schema) is ss.cls and all(e.schema is r.exc.schema for e in r.exc.errors), 'errors after an interrupted operation name another schema', r=r)
        else:
            cmp_values(r.real, r.mobj, 'after an interrupted operation:', r=r)
            r2 = w.update(r.real, r.mobj, {'zz no field': 1}, ignore_extra=False)
            if check_verdict(r2) == 'errors':
                check_report(r2)
                e = r2.exc.errors[0]
                check(e.schema is r.real and e.field is None and r2.exc.schema is r.real, 'errors after an interrupted operation name another schema or field', r=r2)
    mon.count('works_after')


class Hostile:
    def __init__(self, exc, where):
        self.exc, self.where = exc, where

    def __eq__(self, o):
        if self.where == 'eq':
            raise self.exc
        return self is o

    def __hash__(self):
        if self.where == 'hash':
            raise self.exc
        return 1

    def __copy__(self):
        if self.where == 'copy':
            raise self.exc
        return self

    def __iter__(self):
        if self.where == 'iter':
            raise self.exc
        return iter(())

    def __len__(self):
        if self.where == 'len':
            raise self.exc
        return 0

    def __repr__(self):
        return f'Hostile({self.where})'


class HMap(V.MyMapping):
    def __init__(self, d, exc, n, how):
        super().__init__(d)
        self.exc, self.n, self.how = exc, n, how

    def __iter__(self):
        for j, k in enumerate(self._d):
            if j == self.n:
                raise self.exc
            yield k
        if self.n >= len(self._d):
            raise self.exc

    def __getitem__(self, k):
        if self.how == 'get':
            raise self.exc
        return super().__getitem__(k)


class Meta(type):
    exc = None

    def __instancecheck__(cls, x):
        raise Meta.exc


class Weird(metaclass=Meta):
    pass


class In(oblate.Schema):
    a = F.Any(required=False)
    li = F.Literal('x', 5, required=False)
    t = F.TypeExpr(Weird, required=False)
    ln = F.Any(required=False, validators=[oblate.validate.Length(min=1)])
    ex = F.Any(required=False, validators=[oblate.validate.Exclude('q')])


class Out(oblate.Schema):
    n = F.Object(In, required=False)
    m = F.Any(required=False)


def hostile(rng, mon):
    """Objects passed in whose own methods raise."""
    cls = rng.choice([c for c in FOREIGN if c not in (StopAsyncIteration, GeneratorExit)])
    exc = mk(cls, 0)
    Meta.exc = exc
    deep = rng.random() < .5
    put = lambda d: Out({'n': d}) if deep else In(d)
    upd = lambda d: Out({}).update({'n': d}) if deep else In({}).update(d)
    load = rng.choice([put, upd])
    k = rng.randrange(9)
    name = ['mapping', 'getitem', 'literal eq', 'isinstance', 'length', 'exclude eq', 'selection', 'state copy', 'validate_types'][k]
    if cls in (AttributeError, TypeError, KeyError, LookupError, IndexError, MyLookup) and k in (1, 7):
        return
    if k in (3, 4, 8) and issubclass(cls, TypeError):
        # for isinstance it says that values cannot be checked against the type (C12)
        return
    f = [lambda: load(HMap({'a': 1, 'li': 'x'}, exc, rng.randrange(3), 'iter')),
         lambda: load(HMap({'a': 1}, exc, 9, 'get')),
         lambda: load({'li': Hostile(exc, 'eq')}),
         lambda: load({'t': 5}),
         lambda: load({'ln': Hostile(exc, 'len')}),
         lambda: load({'ex': Hostile(exc, 'eq')}),
         lambda: rng.choice([lambda: In({}).dump(include=Hostile(exc, 'iter')), lambda: Out({}).dump(exclude=Hostile(exc, 'iter'))])(),
         lambda: In({}, state=Hostile(exc, 'copy')).copy(),
         lambda: oblate.validate_types({'a': rng.choice([Weird, list[Weird], dict[str, Weird]])}, {'a': 5})][k]
    if k == 8:
        f = lambda: oblate.validate_types({'a': Weird}, {'a': 5})
    try:
        f()
    except BaseException as e:
        check(e is exc, f'an exception raised by a caller-supplied object ({name}) became another one', raised=repr(e), original=repr(exc), deep=deep)
    else:
        check(False, f'an exception raised by a caller-supplied object ({name}) was lost', original=repr(exc), deep=deep)
    for d, want in (({'a': 1, 'li': 'x'}, None), ({'li': 'y', 'zz': 2}, {'li', 'zz'})):
        try:
            x = In(d)
            check(want is None and x.a == 1, 'wrong outcome after an interrupted operation', data=d)
        except oblate.ValidationError as e:
            check(want == set(e.raw()) and all(er.schema is e.schema and type(er.schema) is In for er in e.errors), 'wrong error after an interrupted operation', data=d, raw=e.raw())
    mon.count('hostile_objects')
    mon.seen('hostile', name, cls.__name__, deep)


def compound(rng, mon):
    """Exceptions of the alternatives of Or, at any depth."""
    exc = mk(rng.choice(FOREIGN), 'alternative')
    raised, passed = [], []

    def alternative(depth):
        if depth and rng.random() < .35:
            return oblate.validate.Or(*[alternative(depth - 1) for _ in range(rng.choice([1, 2, 3]))])
        kind = rng.choice(['pass', 'VE', 'AE', 'FE', 'SUBVE', 'SUBFE', 'VE0', 'foreign'])

        def fn(schema, value, ctx):
            if kind == 'pass':
                passed.append(fn)
            elif kind == 'foreign':
                raised.append(fn)
                raise exc
            else:
                raise make_error(kind, 'tok', collections.defaultdict(lambda: None))
        if rng.random() < .5:
            return fn

        class Alt(oblate.validate.Validator):
            def validate(self, value, ctx):
                fn(ctx.schema, value, ctx)
        return Alt()
    v = oblate.validate.Or(*[alternative(2) for _ in range(rng.choice([1, 2, 3]))])
    cls = type(oblate.Schema)('Alternatives', (oblate.Schema,), {'x': F.Any(required=False, validators=[v]), 'y': F.Integer(required=False)})
    outer = type(oblate.Schema)('Outer', (oblate.Schema,), {'in_': F.Object(cls, required=False)})
    inst = cls({'y': 3})
    how = rng.choice(['construct', 'update', 'assign', 'nested'])
    try:
        {'construct': lambda: cls({'x': 1}), 'update': lambda: inst.update({'x': 1}), 'assign': lambda: setattr(inst, 'x', 1), 'nested': lambda: outer({'in_': {'x': 1}})}[how]()
        got = None
    except BaseException as e:
        got = e
    info = dict(how=how, got=repr(got), exception=repr(exc))
    if raised:
        check(got is exc, 'a foreign exception raised by an alternative of Or was lost or replaced', **info)
        check(how == 'construct' or how == 'nested' or (inst.y == 3 and inst.get_value_for('x', None) is None), 'the interrupted operation changed the instance', **info)
    elif passed:
        check(got is None, 'Or failed though an alternative passed', **info)
    else:
        check(isinstance(got, oblate.ValidationError), 'errors raised by all the alternatives of Or are not reported as a validation error', **info)
    x = cls({'y': 5})
    check(x.y == 5, 'wrong outcome after an interrupted operation', **info)
    try:
        cls({'y': 'no', 'zz': 1})
        check(False, 'wrong outcome after an interrupted operation', **info)
    except oblate.ValidationError as e:
        check(set(e.raw()) == {'y', 'zz'} and all(er.schema is e.schema and type(er.schema) is cls for er in e.errors), 'wrong error after an interrupted operation', raw=e.raw(), **info)
    mon.count('alternatives')
    mon.seen('or', how, bool(raised), bool(passed), type(exc).__name__ if raised else '')


class Quiet(oblate.Schema):
    q = F.Any(required=False)


def own_exceptions(rng, mon):
    """Exceptions the library itself raises when user code uses it wrongly from inside an operation."""
    where = rng.choice(['load', 'raw', 'val', 'fmt', 'dump', 'default', 'pre', 'post'])
    what = rng.choice(['frozen own', 'frozen other', 'frozen schema', 'not set', 'not set other', 'no such field', 'both selections', 'no mapping', 'types', 'copy arguments', 'bound'])
    got, armed = [], [False]

    class Frz(oblate.Schema):
        z = F.Any(required=False)

        class Config(oblate.SchemaConfig):
            frozen = True

    def misuse(schema):
        if not armed[0]:
            return
        armed[0] = False
        try:
            if what == 'frozen own':
                rng.choice([lambda: setattr(schema, 'x', 3), lambda: schema.update({'x': 3}), lambda: schema.update({'x': None}, ignore_extra=True)])()
            elif what == 'frozen other':
                rng.choice([lambda: setattr(schema, 'fr', 3), lambda: schema.update({'fr': 3})])()
            elif what == 'frozen schema':
                rng.choice([lambda: setattr(Frz({}), 'z', 3), lambda: Frz({}).update({})])()
            elif what == 'not set':
                rng.choice([lambda: schema.opt, lambda: schema.get_value_for('opt')])()
            elif what == 'not set other':
                rng.choice([lambda: Quiet({}).q, lambda: Quiet({}).get_value_for('q')])()
            elif what == 'no such field':
                schema.get_value_for('no such')
            elif what == 'both selections':
                Quiet({}).dump(include=['q'], exclude=[])
            elif what == 'no mapping':
                Quiet(rng.choice([None, 5, [('q', 1)]]))
            elif what == 'types':
                oblate.validate_types({'a': int}, {'a': 'x'})
            elif what == 'copy arguments':
                Quiet.q.copy(no_such=1)
            else:
                type(oblate.Schema)('Again', (oblate.Schema,), {'q': Quiet.q, '__module__': 'm'})
        except Exception as e:
            got.append(e)
            raise
        check(False, 'a wrong use of the library inside a callback went unnoticed', misuse=what, where=where)

    class Fld(F.Any):
        def value_load(self, value, ctx):
            if where == 'load':
                misuse(ctx.schema)
            if where == 'fmt' and armed[0]:
                raise ValueError()
            return value

        def value_dump(self, value, ctx):
            if where == 'dump':
                misuse(ctx.schema)
            return value

        def format_error(self, code, ctx):
            misuse(ctx.schema)

    def v(schema, value, ctx):
        if where in ('raw', 'val'):
            misuse(schema)
    x = Fld(frozen=True)
    x.add_validator(v, raw=where == 'raw')
    nested = rng.random() < .4

    def pre(self, data):
        if where == 'pre':
            misuse(self)
        return data

    def post(self):
        if where == 'post':
            misuse(self)

    def default(ctx, field):
        if where == 'default':
            misuse(ctx.schema)
    A = type(oblate.Schema)('A', (oblate.Schema,), {'fr': F.Any(frozen=True, required=False), 'opt': F.Any(required=False), 'd': F.Any(required=False, none=True, default=default), 'x': x, 'preprocess_data': pre, '__schema_post_init__': post, '__module__': 'm'})
    O = type(oblate.Schema)('O', (oblate.Schema,), {'a': F.Object(A), '__module__': 'm'})
    cls, data = (O, {'a': {'x': 1, 'fr': 2}}) if nested else (A, {'x': 1, 'fr': 2})
    inst = cls(data) if where == 'dump' else None
    armed[0] = True
    try:
        inst.dump() if where == 'dump' else cls(data)
        exc = None
    except BaseException as e:
        exc = e
    info = dict(misuse=what, where=where, nested=nested, got=repr(exc))
    check(got, 'harness: the misuse was not reached', **info)
    own = got[0]
    info['raised'] = repr(own)
    convertible = isinstance(own, (ValueError, AssertionError, oblate.FieldError)) and where in ('load', 'raw', 'val', 'dump')
    if convertible:
        check(isinstance(exc, oblate.ValidationError), 'an error raised by a callback was not converted', **info)
    elif isinstance(own, ValueError):
        return
    else:
        check(exc is own, 'an exception that user code caused inside an operation was lost or became another one', **info)
    mon.count('own_exceptions')
    mon.seen('own', what, where, nested)
    y = A({'x': 1})
    check(y.x == 1, 'wrong outcome after an interrupted operation', **info)
    try:
        A({'x': 1, 'zz': 1})
        check(False, 'wrong outcome after an interrupted operation', **info)
    except oblate.ValidationError as e:
        check(set(e.raw()) == {'zz'} and type(e.schema) is A and e.errors[0].schema is e.schema, 'wrong error after an interrupted operation', raw=e.raw(), **info)


class Escape(oblate.ValidationError):
    pass


def escaped(rng, mon):
    """A ValidationError of another operation raised by user code of a nested schema, whatever class is configured then."""
    old = oblate.config.validation_error_cls
    other = type(oblate.Schema)('Other', (oblate.Schema,), {'o': F.Integer(), '__module__': 'm'})

    def fail():
        try:
            other({rng.choice(['o', 'zz']): 'no'})
        except oblate.ValidationError as e:
            return e
    try:
        if rng.random() < .3:
            oblate.config.validation_error_cls = Escape
        exc = fail()
        oblate.config.validation_error_cls = rng.choice([oblate.ValidationError, Escape])
        where = rng.choice(['load', 'val', 'raw', 'pre', 'post', 'dump'])

        class Fld(F.Any):
            def value_load(self, value, ctx):
                if where == 'load' and value == 'bad':
                    raise exc
                return value

            def value_dump(self, value, ctx):
                if where == 'dump' and value == 'bad':
                    raise exc
                return value

        class Strict(F.Any):
            def value_dump(self, value, ctx):
                if where == 'dump':
                    raise ValueError('strict')
                return value

            def value_load(self, value, ctx):
                if where != 'dump':
                    raise ValueError('strict')
                return value
        x = Fld()

        def v(schema, value, ctx):
            if where in ('val', 'raw') and value == 'bad':
                raise exc
        x.add_validator(v, raw=where == 'raw')

        def pre(self, data):
            if where == 'pre':
                raise exc
            return data

        def post(self):
            if where == 'post':
                raise exc
        B = type(oblate.Schema)('B', (oblate.Schema,), {'x': x, 'preprocess_data': pre, '__schema_post_init__': post, '__module__': 'm'})
        ns = {'b': F.Object(B, required=False), 'q': Strict(required=False), '__module__': 'm'}
        if rng.random() < .5:
            ns = {'q': ns['q'], 'b': ns['b'], '__module__': 'm'}
        A = type(oblate.Schema)('A', (oblate.Schema,), ns)
        how = 'dump' if where == 'dump' else rng.choice(['construct', 'update', 'assign'])
        d = {'b': {'x': 'bad'}, 'q': 1}
        if how == 'dump':
            fn = A(d).dump
        elif how == 'construct':
            fn = lambda: A(d)
        else:
            a = A({})
            fn = (lambda: a.update(d)) if how == 'update' else (lambda: setattr(a, 'b', d['b']))
        info = dict(where=where, how=how, raised=type(exc).__name__, configured=oblate.config.validation_error_cls.__name__)
        try:
            fn()
        except oblate.ValidationError as e:
            raw = e.raw()
            keys = {'b'} if how == 'assign' else {'b', 'q'}
            check(set(raw) == keys and raw['b'] == [exc.raw()], 'a validation error raised by user code of a nested schema is not reported like the others', got=raw, expected=exc.raw(), **info)
            check(type(e) is oblate.config.validation_error_cls, 'the failure was not raised as the configured error class', got=type(e), **info)
        except BaseException as e:
            check(False, 'a validation error raised by user code of a nested schema became another exception', got=repr(e), **info)
        else:
            check(False, 'a validation error raised by user code of a nested schema was lost', **info)
        mon.count('escaped')
        mon.seen('escaped', where, how, type(exc).__name__, oblate.config.validation_error_cls.__name__)
    finally:
        oblate.config.validation_error_cls = old


def case(rng, mon, i, tier):
    if i % 5 == 0:
        escaped(rng, mon)
    if i % 2 == 0:
        compound(rng, mon)
        own_exceptions(rng, mon)
    if i % 4 == 0:
        hostile(rng, mon)
    w = World(rng)
    w.twins = False
    prof = dict(err_kinds=['VE'], load_rates=[0], dump_rates=[0], vrate=0, p_instr=1, validators=.7, p_object=.4, p_fmt=.4, p_frozen=.1, p_default=.25, valid_default=True, p_keys=.4)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    r = None
    for _ in range(3):
        good = w.gen_data(ss, rng, 0, p_opt=rng.choice([.6, 1]))
        r = w.construct(ss, good)
        check_verdict(r)
        if r.ok:
            break
    if not r.ok:
        return
    real, mobj = r.real, r.mobj
    op = Op(w, ss, rng)
    for kind in rng.sample(['construct', 'update', 'assign', 'dump'], rng.choice([2, 3])):
        if not op.prepare(kind, good, real, mobj):
            continue
        clean = op.run({})
        check(clean.exc is None, f'{kind} of good data failed', exc=repr(clean.exc), schema=repr(ss))
        conv = sorted({k for k, s in clean.ran if k[0] is not None and k[1] in ('load', 'raw', 'val', 'dump')}, key=repr)
        places = sorted({k for k, s in clean.ran if k[0] is not None}, key=repr)
        # errors that are converted
        for _ in range(min(len(conv), 4 if tier == 'quick' else 8)):
            n = rng.choice([1, 1, 2, 3, 4])
            pos = rng.sample(conv, min(n, len(conv)))
            what = {k: (rng.choice(ERR_KINDS), decorated(f'tok:x{j}{rng.randrange(10 ** 4)}')) for j, k in enumerate(pos)}
            p = op.run({k: (lambda v=v: w.user_error(*v)) for k, v in what.items()})
            info = dict(op=kind, schema=repr(ss), data=getattr(op, 'data', None), injected=what, got=repr(p.exc))
            check(p.fired, 'harness: no injected position was reached', **info)
            fired = [(k, s, v, what[k]) for k, s, v, e in p.fired]
            check(isinstance(p.exc, oblate.ValidationError), f'{kind}: an error raised by a {fired[0][0][1]} callback was ' + ('lost' if p.exc is None else 'not converted'), **info)
            exp = expected(w, op, fired)
            d = match_errors(p.exc.errors, exp)
            check(d is None, f'{kind}: the converted errors are reported in another way: {d}', **info)
            d = match_raw(p.exc.raw(), exp)
            check(d is None, f'{kind}: the converted errors are rendered in another way: {d}', **info)
            need = must_run(clean.ran, fired, kind)
            have = collections.Counter(k for k, s in p.ran)
            miss = need - have
            check(not miss, f'{kind}: remaining fields or validators were not processed after an error', missing=list(miss), **info)
            mon.count('others_ran', sum(need.values()))
            mon.count('converted', len(fired))
            mon.count('multi', len(fired) > 1)
            mon.count('nested', any(k[0] for k, *_ in fired))
            mon.count(kind)
            for k, *_ in fired:
                mon.seen('conv', kind, k[1], len(k[0]), what[k][0], len(fired))
        # errors that pass through
        for k in rng.sample(places, min(len(places), 4 if tier == 'quick' else 12)):
            pool = FOREIGN
            if not k[0] and k[1] in ('pre', 'post', 'default'):
                pool = FOREIGN + [ValueError, AssertionError, ValueError, AssertionError]
            exc = mk(rng.choice(pool), k)
            others = {}
            if rng.random() < .5:
                # while other callbacks of the operation fail with errors that are converted
                others = {q: (rng.choice(ERR_KINDS), f'tok:y{j}{rng.randrange(10 ** 4)}') for j, q in enumerate(rng.sample(conv, min(len(conv), rng.choice([1, 2, 4])))) if q != k}
            p = op.run({k: (lambda: exc), **{q: (lambda v=v: w.user_error(*v)) for q, v in others.items()}})
            info = dict(op=kind, schema=repr(ss), data=getattr(op, 'data', None), position=k, exception=repr(exc), others=others, got=repr(p.exc))
            check(p.fired, 'harness: no injected position was reached', **info)
            if not any(x[0] == k for x in p.fired):
                # not reached because of the other errors
                check(isinstance(p.exc, oblate.ValidationError), f'{kind}: errors of callbacks are not reported as a validation error', **info)
                continue
            mon.count('foreign_among_converted', len(p.fired) > 1)
            check(p.exc is exc, f'{kind}: a foreign exception of a {k[1]} callback ' + ('was lost' if p.exc is None else 'became another exception'), **info)
            if p.target is not None and kind in ('update', 'assign'):
                cmp_values(p.target, mobj, f'{kind} interrupted by a foreign exception:', **info)
            mon.count('passed_through')
            mon.count('base_exceptions', not isinstance(exc, Exception))
            mon.count(kind)
            mon.count('nested', bool(k[0]))
            mon.count('dump_cb' if k[1] == 'dump' else k[1])
            mon.seen('foreign', kind, k[1], len(k[0]), type(exc).__name__)
            if rng.random() < .5:
                known_answers(w, ss, good, rng, mon, op)
    # foreign exceptions of format_error, raised while failures are being reported
    for _ in range(2):
        bad = w.gen_data(ss, rng, rng.choice([1, 2, 3]))
        seen = []
        w.on_step = lambda kind, spec, schema, value, ctx: seen.append(kind) if kind == 'fmt' else None
        try:
            ss.cls(bad)
        except oblate.ValidationError:
            pass
        w.on_step = None
        if not seen:
            continue
        exc = mk(rng.choice(FOREIGN), 'fmt')
        left = [rng.randrange(len(seen))]

        def step(kind, spec, schema, value, ctx):
            if kind == 'fmt':
                left[0] -= 1
                if left[0] == -1:
                    raise exc
        w.on_step = step
        try:
            ss.cls(bad)
            got = None
        except BaseException as e:
            got = e
        w.on_step = None
        check(got is exc, 'a foreign exception of format_error was lost or replaced', got=repr(got), exception=repr(exc), schema=repr(ss), data=bad)
        mon.count('fmt')
        known_answers(w, ss, good, rng, mon, op)
    mon.sample(f'{ss!r} with {good!r}')
    texpr.release(None)
