"""C28: introspection of fields against their declarations, over histories."""
import types as pytypes
import typing

import oblate
from oblate import fields as F, validate as VD

from .. import noise, values as V
from ..core import check
from ..world import SENT

ID = 'C28'
QUICK, THOROUGH = 8000, 160000
RULE = ('random declarations of all field classes with every combination of options (false, None and empty values included), before attaching, after attaching, inherited, overridden, copied once or repeatedly and attached elsewhere under '
        'another name; inspected after each step of histories of operations, failing ones included; distinct by (field class, options given, stage)')
NEED = ['empty_key', 'unattached', 'attached', 'inherited', 'overridden', 'copy', 'copy_of_copy', 'copy_attached', 'renamed', 'extras_given', 'extras_fresh', 'default_none', 'default_false', 'default_callable', 'data_key', 'load_key', 'dump_key', 'both_keys',
        'required_with_default', 'options', 'class_access', 'history', 'failed_ops', 'decorated', 'decorated_twice', 'extras_used', 'two_bases', 'data_and_other', 'extending']


class TD(typing.TypedDict):
    a: int


class Sub(oblate.Schema):
    n = F.Integer(required=False)


class Custom(F.Any):
    def __init__(self, extra=0, **kw):
        super().__init__(**kw)
        self.extra = extra


def dflt_fn(ctx, field):
    return 'made'


class CallDefault:
    def __call__(self, ctx, field):
        return 'obj'


def kinds(rng):
    """(factory, its own options by attribute)"""
    def strict(cls):
        s = rng.choice([None, True, False])
        return (lambda **kw: cls(**kw)) if s is None else (lambda **kw: cls(strict=s, **kw)), {'strict': True if s is None else s}
    ik = rng.choice([None, {}, {'ignore_extra': True}, {'state': [1]}, {'state': None}, {'state': 0, 'ignore_extra': False}, V.DictSub(state=1), pytypes.MappingProxyType({'state': None})])
    lits = rng.choice([('a',), (1, 2), (None, 'x'), (0, False), ('a', 'b', 'a'), (2, 2, 1), (1, True, 1.0, '1'), ('b', None, 'a', None)])
    types = rng.choice([(int, str), (bytes, float, type(None))])
    expr = rng.choice([int, typing.List[int], typing.Union[int, str], typing.Dict[str, typing.Any]])
    return rng.choice([
        lambda: (F.Any, {}), lambda: (Custom, {'extra': 0}), lambda: ((lambda **kw: Custom(extra='e', **kw)), {'extra': 'e'}),
        lambda: strict(F.String), lambda: strict(F.Integer), lambda: strict(F.Float), lambda: strict(F.Boolean),
        lambda: ((lambda **kw: F.Object(Sub, **({} if ik is None else {'init_kwargs': ik}), **kw)), {'schema_cls': Sub, **({'init_kwargs': ik} if ik is not None else {})}),
        lambda: ((lambda **kw: F.Literal(*lits, **kw)), {'values': lits}),
        lambda: ((lambda **kw: F.Union(*types, **kw)), {'types': types}),
        lambda: ((lambda **kw: F.TypeExpr(expr, **kw)), {'expr': expr}),
        lambda: ((lambda **kw: F.TypedDict(TD, **kw)), {'typed_dict': TD}),
        lambda: ((lambda **kw: F.Dict(str, expr, **kw)), {'key_tp': str, 'value_tp': expr}), lambda: (F.Dict, {}),
        lambda: ((lambda **kw: F.List(expr, **kw)), {'type': expr}), lambda: (F.List, {}),
        lambda: ((lambda **kw: F.Set(expr, **kw)), {'type': expr}), lambda: (F.Set, {}),
    ])()


class Decl:
    """A field and what it must report."""
    def __init__(self, rng, mon, name):
        mk, self.opts = kinds(rng)
        kw = {}
        if rng.random() < .4:
            kw['required'] = rng.random() < .5
        if rng.random() < .4:
            kw['none'] = rng.random() < .6
        if rng.random() < .3:
            kw['frozen'] = rng.random() < .6
        if rng.random() < .4:
            kw['default'] = rng.choice([None, 0, False, '', [], {}, [1, [2]], {'k': [1], 'n': {}}, {1, 2}, V.ListSub([1]), V.DictSub(a=[1]), bytearray(b'x'), 'd', V.Tagged(3), dflt_fn, CallDefault(), 7, Ellipsis, dict, int, object, Sub, len])
        if rng.random() < .4:
            kw['extras'] = rng.choice([{}, {'k': 1}, {'k': [1, 2], 'name': 'x', 'default': 3}, V.DictSub(a=1)])
        keys = rng.choice(['', '', 'load', 'dump', 'both', 'data', 'same', 'data+'])
        if keys in ('load', 'both'):
            kw['load_key'] = rng.choice([f'L {name}', f'l{name}', name, name.upper(), ''])
        if keys in ('dump', 'both'):
            kw['dump_key'] = rng.choice([f'D {name}', f'd{name}', name, name.upper(), ''])
        if keys == 'data':
            kw['data_key'] = rng.choice([f'X {name}', f'x{name}', name, ''])
        if keys == 'data+':
            # data_key is the value of both
            kw['data_key'] = rng.choice([f'X {name}', name, ''])
            for k in rng.choice([['load_key'], ['dump_key'], ['load_key', 'dump_key']]):
                kw[k] = rng.choice([kw['data_key'], f'other {name}', ''])
            mon.count('data_and_other')
        if keys == 'same':
            kw['load_key'] = kw['dump_key'] = f'S{name}'
        if '' in (kw.get('data_key'), kw.get('load_key'), kw.get('dump_key')):
            mon.count('empty_key')
        self.kw = kw
        items = list(kw.items())
        rng.shuffle(items)
        self.f = mk(**dict(items))
        self.name = self.schema = None
        self.extras = kw.get('extras')
        self.extras_copy = dict(self.extras) if self.extras is not None else {}
        self.extras_id = id(self.f.extras)
        self.is_copy = False
        self.mark(mon)

    def mark(self, mon):
        kw = self.kw
        mon.count('extras_given', 'extras' in kw)
        mon.count('extras_fresh', 'extras' not in kw)
        if 'default' in kw:
            d = kw['default']
            mon.count('default_none', d is None)
            mon.count('default_false', d is not None and not callable(d) and not isinstance(d, V.Tagged) and not d)
            mon.count('default_callable', callable(d))
            mon.count('required_with_default', kw.get('required') is True)
        for k in ('data_key', 'load_key', 'dump_key'):
            mon.count(k, k in kw)
        mon.count('both_keys', 'load_key' in kw and 'dump_key' in kw)
        mon.count('options', bool(self.opts))

    def copied(self, rng):
        c = object.__new__(Decl)
        c.__dict__.update(self.__dict__)
        c.f = self.f.copy()
        c.name = c.schema = None
        c.is_copy = True
        return c

    def look(self, mon, stage, **info):
        f, kw = self.f, self.kw
        info = dict(field=type(f).__name__, options=repr(kw), stage=stage, **info)

        def eq(attr, got, want, ident=True):
            ok = got is want if ident else (type(got) is type(want) and got == want)
            check(ok, f'a field does not report the {attr} it was declared with', got=got, expected=want, **info)
        eq('none', f.none, kw.get('none', False))
        eq('frozen', f.frozen, kw.get('frozen', False))
        eq('required', f.required, kw.get('required', True) and 'default' not in kw)
        eq('has_default', f.has_default(), 'default' in kw)
        eq('default', f.default, kw.get('default'))
        if self.is_copy:
            check(f.extras == self.extras_copy, 'a copied field has other extras', got=f.extras, expected=self.extras_copy, **info)
            if self.extras is not None:
                eq('extras', f.extras, self.extras)
        elif self.extras is not None:
            eq('extras', f.extras, self.extras)
            check(f.extras == self.extras_copy, 'the extras of a field changed', got=f.extras, expected=self.extras_copy, **info)
        else:
            check(type(f.extras) is dict and f.extras == self.extras_copy and id(f.extras) == self.extras_id, 'a field without extras does not keep an empty dictionary', got=f.extras, **info)
        for a, want in self.opts.items():
            got = getattr(f, a)
            check(got is want or (type(got) is type(want) and got == want and (type(want) is not tuple or [type(x) for x in got] == [type(x) for x in want])), f'a field does not report its option {a}', got=got, expected=want, **info)
        if self.name is None:
            for a in ('name', 'schema'):
                try:
                    got = getattr(f, a)
                except RuntimeError:
                    pass
                else:
                    check(False, f'an unattached field has a {a}', got=got, **info)
        else:
            eq('name', f.name, self.name, False)
            check(f.schema is self.schema, 'a field does not report the schema it was defined in', got=f.schema, expected=self.schema, **info)
            eq('load_key', f.load_key, kw.get('data_key', kw.get('load_key', self.name)), False)
            eq('dump_key', f.dump_key, kw.get('data_key', kw.get('dump_key', self.name)), False)
        mon.seen(type(f).__name__, tuple(sorted(kw)), stage, tuple(repr(v)[:20] for v in self.opts.values()))


def define(rng, mon, decls, base, at):
    """A class with some unattached declarations under the given names."""
    ns = {'__module__': 'oblmon.generated'}
    for n, d in decls.items():
        ns[n] = d.f
        if rng.random() < .2:
            def v(self, value, ctx, n=n):
                return (n, value)
            fn = v
            if rng.random() < .3:
                fn = VD.field(rng.choice(['elsewhere', n]), raw=rng.random() < .5)(v)   # decorated again: the last one counts
                mon.count('decorated_twice')
                check(fn is v, 'the validator decorator does not return the function', name=n)
            ns[f'check_{n}'] = VD.field(rng.choice([n, d.f]), raw=rng.random() < .3)(fn)
            at.append((n, ns[f'check_{n}'], v))
    cls = type(oblate.Schema)(rng.choice(['One', 'Two']), base if isinstance(base, tuple) else (base,), ns)
    for n, d in decls.items():
        d.name, d.schema = n, cls
    return cls


def distinct(decls):
    for key in ('load_key', 'dump_key'):
        ks = [d.kw.get('data_key', d.kw.get(key, n)) for n, d in decls.items()]
        if len(set(ks)) < len(ks):
            return False
    return True


def extended(rng, mon):
    """A class that adds validators to inherited fields: its own fields report the declared options too."""
    decls = {n: Decl(rng, mon, n) for n in rng.sample(['a', 'b', 'c', 'name'], rng.choice([1, 2, 3]))}
    if not distinct(decls):
        return
    base = define(rng, mon, decls, oblate.Schema, [])
    hit = rng.sample(sorted(decls), rng.choice([1, 1, len(decls)]))
    ns = {'__module__': 'oblmon.generated'}
    for n in hit:
        ns[f'more_{n}'] = VD.field(rng.choice([n, decls[n].f]), raw=rng.random() < .4)(lambda self, value, ctx: True)
    sub = type(oblate.Schema)('Ext', (base,), ns)
    last = type(oblate.Schema)('ExtSub', (sub,), {'__module__': 'oblmon.generated'})
    for rounds in range(2):
        for n, d in decls.items():
            d.look(mon, 'extended from')
            check(getattr(base, n) is d.f, 'a field accessed on the class is not the field that was declared', name=n, stage='extended')
            got = getattr(sub, n)
            check(getattr(last, n) is got, 'a class that inherits without extending has another field', name=n)
            if n not in hit:
                check(got is d.f, 'a class that inherits a field without extending it has another one', name=n)
                continue
            e = object.__new__(Decl)
            e.__dict__.update(d.__dict__)
            e.f, e.is_copy, e.schema = got, True, got.schema
            check(type(got) is type(d.f), 'the field of an extending class is of another class', name=n)
            e.look(mon, 'extending')
            mon.count('extending')
        if not rounds:
            operate(rng, mon, rng.choice([base, sub, last]), decls)
            noise.run(rng.randrange(99))


def operate(rng, mon, cls, cur):
    """A few operations, most of them failing."""
    data = {}
    for n, d in cur.items():
        if rng.random() < .7:
            data[d.kw.get('data_key', d.kw.get('load_key', n))] = rng.choice([None, 1, 'x', True, [], {}, {'n': 'bad'}, {'a': 1}, {1}, V.Tagged(2), Sub({})])
    ops = [lambda: cls(data), lambda: cls({}), lambda: cls(data, ignore_extra=True, state=1)]
    try:
        x = cls(data)
        ops += [lambda: x.update(data), lambda: x.dump(), lambda: x.copy().update(data), lambda: [setattr(x, n, 'v') for n in cur], lambda: repr(x), lambda: x.get_value_for('nope'), lambda: x.dump(include=['a'])]
    except Exception:  # what operations do is decided elsewhere (a class as default may not take the arguments)
        mon.count('failed_ops')
    for op in rng.sample(ops, min(3, len(ops))):
        try:
            op()
        except Exception:  # what operations do is decided elsewhere
            mon.count('failed_ops')
    mon.count('history')


def case(rng, mon, i, tier):
    if i % 5 == 3:
        extended(rng, mon)
    names = rng.sample(['a', 'b', 'c', 'name', 'value', 'schema_', 'key', 'default_'], rng.choice([1, 2, 4]))
    decls = {n: Decl(rng, mon, n) for n in names}
    every = list(decls.values())
    fresh = [id(d.f.extras) for d in every if d.extras is None]
    check(len(set(fresh)) == len(fresh), 'fields without extras share a dictionary')
    for d in every:
        d.look(mon, 'unattached')
        mon.count('unattached')
    if not distinct(decls):
        return
    at = []
    cls = define(rng, mon, decls, oblate.Schema, at)
    classes = [(cls, decls)]

    def look(stage, **info):
        for d in every:
            d.look(mon, stage, **info)
        for c, cur in classes:
            for n, d in cur.items():
                check(getattr(c, n) is d.f, 'a field accessed on the class is not the field that was declared', cls=c.__name__, name=n, stage=stage)
                mon.count('class_access')
                mon.count('inherited', d.schema is not c)
        for n, fn, orig in at:
            check(fn is orig and fn(None, 5, None) == (n, 5), 'the validator decorator does not return the function', name=n)
            mon.count('decorated')
    look('attached')
    mon.count('attached')
    for step in range(rng.choice([1, 3, 6])):
        op = rng.choice(['subclass', 'copy', 'operate', 'operate', 'noise', 'extras'])
        c, cur = rng.choice(classes)
        if op == 'subclass' and len(classes) < 5:
            free = [n for n in ['a', 'b', 'c', 'name', 'other', 'p', 'q'] if n not in cur]
            new = {}
            if cur and rng.random() < .5:
                new.update({n: Decl(rng, mon, n) for n in rng.sample(sorted(cur), 1)})
                mon.count('overridden')
            new.update({n: Decl(rng, mon, n) for n in rng.sample(free, min(len(free), rng.choice([0, 1, 2])))})
            full = {**cur, **new}
            every += new.values()
            if not distinct(full):
                continue
            bases = (c,)
            if rng.random() < .4:
                # another base, unrelated
                other = {'side': Decl(rng, mon, 'side')} if rng.random() < .7 else {}
                if not distinct({**full, **other}):
                    continue
                oc = define(rng, mon, other, oblate.Schema, at)
                every += other.values()
                classes.append((oc, other))
                full = {**full, **other}
                bases = rng.choice([(c, oc), (oc, c)]) if 'side' not in cur else (c,)
                full = full if oc in bases else {**cur, **new}
                mon.count('two_bases', oc in bases)
            classes.append((define(rng, mon, new, bases, at), full))
        elif op == 'copy':
            src = rng.choice(every)
            d = src.copied(rng)
            check(d.f is not src.f and type(d.f) is type(src.f), 'a copied field is the same object or of another class')
            every.append(d)
            d.look(mon, 'copy')
            mon.count('copy')
            mon.count('copy_of_copy', src.is_copy)
            if rng.random() < .6 and len(classes) < 5:
                n = rng.choice(['a', 'b', 'renamed', 'zz'])
                mon.count('renamed', src.name is not None and n != src.name)
                classes.append((define(rng, mon, {n: d}, oblate.Schema, at), {n: d}))
                mon.count('copy_attached')
        elif op == 'operate':
            operate(rng, mon, c, cur)
        elif op == 'extras':
            # the user's own use of the dictionary is kept, for that field alone
            d = rng.choice(every)
            if d.is_copy or any(x is not d and x.f.extras is d.f.extras for x in every):
                continue
            d.f.extras['note'] = step
            d.extras_copy = {**d.extras_copy, 'note': step}
            mon.count('extras_used')
        else:
            noise.run(rng.randrange(99))
        look(op)
    mon.sample(f'{[(type(d.f).__name__, d.kw) for d in every][:4]}')
