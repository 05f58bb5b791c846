"""C27: misuse between snapshots of everything that already exists."""
import collections
import functools

import oblate
from oblate import fields as F, validate as VD

from .. import values as V
from ..core import check

ID = 'C27'
QUICK, THOROUGH = 5000, 100000
RULE = ('random class families, instances and configuration; 1-8 refused definitions or calls of 22 kinds with random valid parts around them, in random order and also from inside callbacks; everything that existed is described '
        '(attributes, validators, values, behaviour on probe data, configuration) before and after each, then the corrected definition or call is made; distinct by (kind, variant, place)')
KINDS = ['two_classes', 'two_names', 'rebound_inherited', 'object', 'union', 'dict', 'validator_ctor', 'validator_add', 'validator_remove', 'validator_field', 'range', 'length', 'regex', 'error_cls', 'warn', 'config_ctor',
         'dump_both', 'non_mapping', 'preprocess', 'unattached', 'format_error', 'abstract']
NEED = KINDS + ['refused', 'corrected', 'in_callback', 'snapshots', 'after_partial']
class Looks:
    """Has the methods of a validator, is none."""
    def validate(self, value, ctx):
        pass

    __validator_is_raw__ = False


class OnlyItems:
    def items(self):
        return [('n', 1)]


class Duck:
    """Has the methods of a mapping, is none."""
    def keys(self):
        return ['n']

    def items(self):
        return [('n', 1)]

    def __getitem__(self, k):
        return 1

    def __iter__(self):
        return iter(['n'])

    def __len__(self):
        return 1

    def get(self, k, default=None):
        return 1

    def __contains__(self, k):
        return k == 'n'

    def values(self):
        return [1]


NOT_CALLABLE = [Looks(), ..., range(3), {'validate': len}, 5, None, 'name', [], {}, (), 1.5, b'x', ['a'], True, V.Tagged(1) if not callable(V.Tagged(1)) else 0]


def ok_validator(schema, value, ctx):
    pass


def bad_validator(schema, value, ctx):
    raise ValueError('always fails')


def field(rng, **kw):
    kw.setdefault('validators', [ok_validator] * rng.choice([0, 0, 1]))
    k = rng.choice([F.Any, F.Integer, F.String, F.List, F.Dict, F.Boolean, F.Float, F.Set])
    return k(required=False, none=True, **kw)


class Fam:
    """What exists before the misuse."""
    def __init__(self, rng):
        self.rng = rng
        S = type(oblate.Schema)
        ns = {'__module__': 'oblmon.generated', 'x': field(rng), 'y': field(rng, load_key='Y', extras={'k': 1}), 'n': F.Integer(required=False, validators=[VD.Range(10)])}
        if rng.random() < .5:
            def chk(self, value, ctx):
                if value == 3:
                    raise ValueError('three')
            ns['chk'] = VD.field(rng.choice(['n', ns['n']]), raw=rng.random() < .5)(chk)
        self.A = S('A', (oblate.Schema,), ns)
        self.B = S('B', (self.A,), {'__module__': 'oblmon.generated', 'z': field(rng, default=None), 'o': F.Object(self.A, required=False)})
        self.classes = [self.A, self.B]
        self.insts = [self.A({'n': 1}), self.B({'Y': None, 'n': 2, 'o': {'n': 7}}), self.B({})]
        self.loose = [field(rng), F.Integer(validators=[VD.Range(5), ok_validator])]

    def desc_field(self, f):
        out = [id(f), type(f).__name__, f.required, f.none, f.frozen, f.has_default(), repr(f.default), id(f.extras), repr(f.extras), [id(v) for v in f.walk_validators(raw=True)], [id(v) for v in f.walk_validators(raw=False)]]
        for a in ('name', 'schema'):
            try:
                out.append(repr(getattr(f, a)))
            except RuntimeError:
                out.append('-')
        if out[-1] != '-':
            out += [f.load_key, f.dump_key]
        return out

    def snap(self):
        out = {}
        for c in self.classes:
            for n in ('x', 'y', 'z', 'n', 'o'):
                if hasattr(c, n):
                    out[c.__name__, n] = self.desc_field(getattr(c, n))
            for j, d in enumerate(({}, {'n': 3}, {'n': 11, 'q': 1}, {'x': None, 'Y': None, 'n': 4}, {'y': 1}, {'o': {'n': 12}, 'n': None})):
                try:
                    got = ('ok', V.canon(c(d).dump()))
                except oblate.ValidationError as e:
                    got = (type(e).__name__, sorted((k, sorted(map(str, v))) for k, v in e.raw().items()))
                out[c.__name__, 'load', j] = got
        for j, x in enumerate(self.insts):
            out['inst', j] = {n: (id(v) if isinstance(v, oblate.Schema) else V.canon(v)) for n in ('x', 'y', 'z', 'n', 'o') if hasattr(type(x), n) for v in [x.get_value_for(n, Ellipsis)]}
            out['dump', j] = V.canon(x.dump())
            out['ctx', j] = (id(x.context), x.context.is_initialized(), x.context.state)
        for j, f in enumerate(self.loose):
            out['loose', j] = self.desc_field(f)
        c = oblate.config
        out['config'] = (id(c), c.validation_error_cls, c.warn_unsupported_types, oblate.GlobalConfig().validation_error_cls, oblate.GlobalConfig().warn_unsupported_types)
        return out


def cls_with(rng, ns_items, base=None):
    """Defines a class with the items among valid others."""
    items = [(f'v{i}', field(rng)) for i in range(rng.choice([0, 1, 3]))] + [('helper', lambda self: 1)] * rng.choice([0, 1])
    at = [rng.randrange(len(items) + 1) for _ in ns_items]
    for p, it in sorted(zip(at, range(len(ns_items))), reverse=True):
        items.insert(p, ns_items[it])
    return type(oblate.Schema)('New', (base or oblate.Schema,), {'__module__': 'oblmon.generated', **dict(items)})


def mix(rng, free, items):
    at = rng.randrange(len(free) + 1)
    return free[:at] + items + free[at:]


class Callable:
    def __call__(self, schema, value, ctx):
        pass


class MyConf(oblate.GlobalConfig):
    pass


class Err1(oblate.ValidationError):
    pass


class NoLoad(oblate.fields.Field):
    def value_dump(self, value, ctx):
        return value


class NoDump(oblate.fields.Field):
    def value_load(self, value, ctx):
        return value


def own(rng, cls):
    """The class, or one derived from it."""
    return cls if rng.random() < .7 else type('My' + cls.__name__, (cls,), {'__doc__': 'derived'} if rng.random() < .5 else {'__slots__': ()})


class NoValidate(VD.Validator):
    pass


class NoValidateRaw(VD.Validator, raw=True):
    pass


def misuse(kind, fam, rng):
    """(misuse, expected exception, variant, correction)"""
    A, B = fam.A, fam.B
    base = rng.choice([None, None, A, B])
    src = rng.choice([A.x, A.y, B.z, A.n])
    # fields that exist before the definition which names them, and validators of theirs
    free = [(f'q{j}', field(rng)) for j in range(rng.choice([0, 1, 2, 3]))]
    if kind in ('two_classes', 'two_names', 'rebound_inherited', 'validator_field'):
        fam.loose += [f for _, f in free]
        for n, f in free[:]:
            if rng.random() < .5:
                free.insert(rng.randrange(len(free) + 1), (f'chk_{n}', VD.field(rng.choice([n, f]), raw=rng.random() < .5)(lambda self, value, ctx: None)))
    if kind == 'two_classes':
        return lambda: cls_with(rng, mix(rng, free, [('other', src)]), base), RuntimeError, base and base.__name__, lambda: cls_with(rng, mix(rng, free, [('other', src.copy())]), base)
    if kind == 'two_names':
        f = field(rng)
        fam.loose.append(f)
        return lambda: cls_with(rng, mix(rng, free, [('one', f), ('two', f)]), base), RuntimeError, base and base.__name__, lambda: cls_with(rng, mix(rng, free, [('one', f), ('two', f.copy())]), base)
    if kind == 'rebound_inherited':
        n = rng.choice(['x', 'y', 'n'])
        f = getattr(A, n)
        return lambda: cls_with(rng, mix(rng, free, [(n, f)]), rng.choice([A, B])), RuntimeError, n, lambda: cls_with(rng, mix(rng, free, [(n, f.copy())]), rng.choice([A, B]))
    if kind == 'object':
        bad = rng.choice([int, object, dict, F.Field, F.Any, 5, 'A', None, fam.insts[0], oblate.SchemaConfig, {}, type(oblate.Schema), [A], A.x, lambda: A])
        kw = rng.choice([{}, {'required': False}, {'init_kwargs': {'ignore_extra': True}}])
        O = own(rng, F.Object)
        return lambda: O(bad, **kw), TypeError, type(bad).__name__, lambda: O(A, **kw)
    if kind == 'union':
        args = rng.choice([(), (int,), (None,), (str,)])
        U = own(rng, F.Union)
        return lambda: U(*args, required=False), TypeError, len(args), lambda: U(*(args + (float, bytes)), required=False)
    if kind == 'dict':
        tp = rng.choice([int, str, None, list, dict])
        D = own(rng, F.Dict)
        return lambda: D(tp, **rng.choice([{}, {'none': True}])), TypeError, repr(tp), lambda: (D(tp, int), D())
    if kind == 'validator_ctor':
        bad = rng.choice(NOT_CALLABLE)
        vs = [ok_validator] * rng.choice([0, 2]) + [bad] + [ok_validator] * rng.choice([0, 1])
        tp = own(rng, rng.choice([F.Any, F.Integer, F.List]))
        return lambda: tp(validators=vs), TypeError, repr(bad), lambda: tp(validators=[v for v in vs if callable(v)])
    if kind in ('validator_add', 'validator_remove'):
        bad = rng.choice(NOT_CALLABLE)
        f = rng.choice([src, src, B.o, *fam.loose])
        kw = rng.choice([{}, {'raw': True}, {'raw': False}])
        fn = (lambda: f.add_validator(bad, **kw)) if kind == 'validator_add' else (lambda: f.remove_validator(bad, **kw))
        return fn, TypeError, (repr(bad), repr(kw)), lambda: (f.add_validator(ok_validator, raw=True), f.add_validator(ok_validator), f.remove_validator(bad_validator, **kw))
    if kind == 'validator_field':
        bad = rng.choice(['nope', '', 'Y', 'helper', 'X', 'x ', 'Config', 'v0_', 'copy', '__init__', 5, None, ['x'], F.Any, oblate.Schema, A])
        if bad == 'Y' and base is None:
            base = A
        raw = rng.random() < .5
        others = [('chk_ok', VD.field('own')(lambda self, value, ctx: None)), ('own', field(rng))]
        if base is not None and rng.random() < .6:
            # a valid extension of an inherited field beside the invalid one
            others.append(('chk_inh', VD.field(rng.choice(['n', 'x']), raw=raw)(lambda self, value, ctx: bad_validator(self, value, ctx))))
        others += free
        rng.shuffle(others)
        named = rng.choice([lambda self, value, ctx: None, functools.partial(lambda *a: None), Callable()])
        others.insert(rng.randrange(len(others) + 1), ('chk_bad', VD.field(bad, raw=raw)(named)))

        def good():
            fixed = [(k, v) for k, v in others if k != 'chk_bad']
            return cls_with(rng, fixed, base)
        return lambda: cls_with(rng, others, base), TypeError, (repr(bad), base and base.__name__, len(others)), good
    if kind == 'range':
        R = own(rng, VD.Range)
        return lambda: R(), TypeError, R.__name__, lambda: (R(rng.choice([0, 5])), R(0), R(0, 0), R(-1, 3))
    if kind == 'length':
        kw = rng.choice([{}, dict(exact=3, min=1), dict(exact=3, max=3), dict(exact=0, min=0), dict(exact=2, min=2, max=2), dict(exact=5, min=0), dict(exact=0, max=0)])
        L = own(rng, VD.Length)
        return lambda: L(**kw), TypeError, repr(kw), lambda: (L(exact=3), L(min=0), L(max=0), L(min=1, max=2), L(exact=0))
    if kind == 'regex':
        R = own(rng, VD.Regex)
        return lambda: R(rng.choice(['a', __import__('re').compile('a')]), full_match=True, search=True), TypeError, R.__name__, lambda: (R('a', full_match=True), R('a', search=True), R('a'), R('a', full_match=True, search=False))
    if kind in ('error_cls', 'config_ctor', 'warn'):
        bad_cls = rng.choice([ValueError, Exception, BaseException, oblate.OblateException, oblate.FieldError, oblate.FieldNotSet, 5, None, 'ValidationError', object, int, [], lambda errors: oblate.ValidationError(errors), oblate.ValidationError.__init__, Err1.__name__, functools.partial(oblate.ValidationError), (oblate.ValidationError,), (oblate.ValidationError, Err1), __import__('typing').Type[oblate.ValidationError], Err1.__new__(Err1), oblate.TypeValidationError, type('ValidationError', (Exception,), {})])
        bad_warn = rng.choice([1, 0, 'yes', None, '', [], 1.0, 'False'])
        conf = rng.choice([oblate.config, oblate.GlobalConfig(), MyConf(validation_error_cls=Err1, warn_unsupported_types=False)])
        if kind == 'error_cls':
            def good():
                old = conf.validation_error_cls
                conf.validation_error_cls = Err1
                conf.validation_error_cls = old
            before = conf.validation_error_cls, conf.warn_unsupported_types

            def fn():
                try:
                    conf.validation_error_cls = bad_cls
                finally:
                    check((conf.validation_error_cls, conf.warn_unsupported_types) == before, 'a refused configuration value changed the configuration', value=bad_cls, got=conf.validation_error_cls)
            return fn, TypeError, repr(bad_cls), good
        if kind == 'warn':
            before = conf.validation_error_cls, conf.warn_unsupported_types

            def fn():
                try:
                    conf.warn_unsupported_types = bad_warn
                finally:
                    check((conf.validation_error_cls, conf.warn_unsupported_types) == before, 'a refused configuration value changed the configuration', value=bad_warn, got=conf.warn_unsupported_types)

            def good():
                old = conf.warn_unsupported_types
                for v in (True, False, old):
                    conf.warn_unsupported_types = v
                    check(conf.warn_unsupported_types is v, 'a configuration value was not stored', value=v)
            return fn, TypeError, repr(bad_warn), good
        kw = rng.choice([dict(validation_error_cls=bad_cls), dict(warn_unsupported_types=bad_warn), dict(validation_error_cls=Err1, warn_unsupported_types=bad_warn), dict(validation_error_cls=bad_cls, warn_unsupported_types=False)])
        tp = rng.choice([oblate.GlobalConfig, MyConf])

        def good():
            c = tp(validation_error_cls=Err1, warn_unsupported_types=False)
            check(c.validation_error_cls is Err1 and c.warn_unsupported_types is False, 'configuration options given to the constructor are not in force')
        return lambda: tp(**kw), TypeError, repr(kw), good
    if kind == 'dump_both':
        x = rng.choice(fam.insts)
        i, e = rng.choice([[], ['x'], ('n',), {'x'}, 'x', ['nope'], {}]), rng.choice([[], ['x'], ('y',), set(), ['nope'], {}])
        return lambda: x.dump(include=i, exclude=e), TypeError, repr((i, e)), lambda: (x.dump(include=i), x.dump(exclude=e))
    if kind == 'non_mapping':
        c = rng.choice([A, B])
        if rng.random() < .4:
            # even when the hook would make a mapping of it
            c = cls_with(rng, [('preprocess_data', lambda self, data: {'n': 1})], c)
        bad = rng.choice([OnlyItems(), OnlyItems(), 5, None, [], [('n', 1)], (), 'n', b'', {1}, Duck(), Duck(), ..., collections.deque([('n', 1)]), zip('n', [1]), True, fam.insts[0], iter({}), dict, {'n': 1}.items(), {'n': 1}.keys()])
        kw = rng.choice([{}, {'state': {}}, {'ignore_extra': True}])
        return lambda: c(bad, **kw), TypeError, type(bad).__name__, lambda: c({'n': 1}, **kw)
    if kind == 'preprocess':
        bad = rng.choice([5, None, [], [('n', 1)], 'n', Duck(), fam.insts[0], True, iter(())])

        def pre(self, data):
            return bad if data.get('n') == 5 else data
        c = cls_with(rng, [('preprocess_data', pre)], rng.choice([A, B]))
        return lambda: c({'n': 5}), TypeError, type(bad).__name__, lambda: c({'n': 4})
    if kind == 'unattached':
        f = rng.choice([field(rng), *fam.loose[:2], A.x.copy(), B.o.copy(), A.y.copy().copy()])
        a = rng.choice(['name', 'schema'])
        return lambda: getattr(f, a), RuntimeError, a, lambda: getattr(cls_with(rng, [('new', f.copy())]).new, a)
    if kind == 'format_error':
        bad = rng.choice([5, False, 0, 0.0, (), set(), ..., NotImplemented, object, [], {}, ['msg'], ('a',), b'x', ValueError('x'), True, 1.5])
        on = [True]

        class Fmt(F.Integer):
            def format_error(self, code, ctx):
                return bad if on[0] else None
        c = cls_with(rng, [('f', Fmt(required=rng.random() < .5))], rng.choice([None, A]))
        on[0] = False
        x = c({'f': 1})
        y = c({'f': 2})
        on[0] = True
        fam.insts.append(y)
        how = rng.choice(['construct', 'none', 'update', 'assign'])
        fn = {'construct': lambda: c({'f': 'q'}), 'none': lambda: c({'f': None}), 'update': lambda: x.update({'f': 'q'}), 'assign': lambda: setattr(x, 'f', None)}[how]

        def good():
            on[0] = False
            check(x.f == 1 and y.f == 2, 'a refused formatted error changed the schema', how=how, got=x.f)
            try:
                fn()
            except oblate.ValidationError:
                pass
            else:
                check(False, 'an invalid value was accepted')
            x.f = 3
            check(x.f == 3, 'assignment has no effect')
        return fn, TypeError, (how, type(bad).__name__), good
    if kind == 'abstract':
        how = rng.choice(['load', 'dump', 'validate', 'raw'])
        if how == 'raw':
            f = F.Any(validators=rng.choice([[NoValidateRaw()], [ok_validator, NoValidateRaw()]]), required=False, none=rng.random() < .8)
            c = cls_with(rng, [('f', f)], rng.choice([None, A]))
            x = c({})
            v = rng.choice([None, None, 0, 1, '', [], 'q'])
            op = rng.choice([lambda: c({'f': v}), lambda: x.update({'f': v}), lambda: setattr(x, 'f', v)])
            return op, NotImplementedError, how, lambda: check(x.get_value_for('f', 'unset') == 'unset' and c({}) is not None, 'a refused value was stored')
        f = {'load': NoLoad, 'dump': NoDump, 'validate': lambda **kw: F.Any(validators=[ok_validator, NoValidate()], **kw)}[how](required=False, none=True)
        c = cls_with(rng, [('f', f)], rng.choice([None, A]))
        if how == 'dump':
            x = c({'f': 1})
            return lambda: x.dump(), NotImplementedError, how, lambda: check(x.f == 1 and x.dump(exclude=['f']) is not None, 'dump changed the value')
        x = c({})
        op = rng.choice([lambda: c({'f': 1}), lambda: x.update({'f': 1}), lambda: setattr(x, 'f', 1)])
        return op, NotImplementedError, how, lambda: check(x.get_value_for('f', None) is None and c({'f': None}).f is None, 'a refused value was stored')
    raise AssertionError(kind)


def attempt(fn, exc, kind, variant, place):
    try:
        got = fn()
    except exc as e:
        check(not isinstance(e, oblate.ValidationError) and (exc is NotImplementedError or not isinstance(e, NotImplementedError)), 'a refused call raised an error of another kind', kind=kind, variant=variant, exc=repr(e))
    except Exception as e:
        check(False, f'a refused definition or call did not raise {exc.__name__}', kind=kind, variant=variant, place=place, exc=repr(e))
    else:
        check(False, 'an invalid definition or call was accepted', kind=kind, variant=variant, place=place, got=repr(got))


def case(rng, mon, i, tier):
    fam = Fam(rng)
    n = rng.choice([1, 2, 4, 8])
    kinds = [KINDS[i % len(KINDS)]] + [rng.choice(KINDS) for _ in range(n - 1)]
    for kind in kinds:
        made = misuse(kind, fam, rng)
        fn, exc, variant, good = made
        before = fam.snap()
        inside = rng.random() < .2
        state = rng.getstate()
        if inside:
            # from a validator of some unrelated construction
            hit = []

            def validator(schema, value, ctx):
                try:
                    attempt(fn, exc, kind, variant, 'callback')
                except BaseException as e:
                    hit.append(e)
            c = type(oblate.Schema)('Host', (oblate.Schema,), {'__module__': 'm', 'f': F.Any(validators=[validator])})
            c({'f': 1})
            if hit:
                raise hit[0]
            mon.count('in_callback')
        else:
            attempt(fn, exc, kind, variant, 'plain')
        after = fam.snap()
        for k in before:
            check(before[k] == after[k], 'a refused definition or call changed something that existed', kind=kind, variant=variant, what_changed=k, before=before[k], after=after[k])
        mon.count('snapshots')
        if kind in ('two_classes', 'two_names', 'validator_field', 'rebound_inherited', 'format_error'):
            mon.count('after_partial')
        mon.count('refused')
        mon.count(kind)
        mon.seen(kind, variant, inside)
        try:
            good()
        except oblate.ValidationError:
            raise
        mon.count('corrected')
    mon.sample(f'{kinds}')
