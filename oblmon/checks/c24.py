"""C24: configuration resolution against a chain model: extra keys, slots, representation."""
import oblate
from oblate import fields as F

from .. import noise, values as V
from ..core import check

ID = 'C24'
QUICK, THOROUGH = 20000, 400000
RULE = ('random inheritance chains (1-4 classes, each with no, partial or full configuration written as an inner class of any name, possibly derived from another configuration) forming trees of nested schemas with and without '
        'initialization arguments; unknown keys at every level; every way of giving ignore_extra; explicit slots of every form; distinct by (chain of configurations, operation, argument, level of the unknown key, verdict)')
NEED = ['construct', 'update', 'assign', 'unknown_rejected', 'unknown_ignored', 'arg_true', 'arg_false', 'inherited_config', 'default_config', 'nested_unknown', 'init_kwargs', 'instance_passed', 'slots_open', 'slots_closed',
        'slots_declared', 'repr_generated', 'repr_none', 'repr_off', 'repr_custom', 'exposed', 'stated_defaults', 'reentrant', 'plain_base', 'repr_long']
_n = iter(range(10 ** 9))


class BaseConf(oblate.SchemaConfig):
    ignore_extra = True


class Node:
    """One schema class with its model."""
    def __init__(self, parent):
        self.parent = parent
        self.conf = None          # own configuration class
        self.opts = dict(parent.opts) if parent else dict(ignore_extra=False, slotted=True, add_repr=True, frozen=False)
        self.config = parent.config if parent else oblate.SchemaConfig
        self.slots = None
        self.custom_repr = None
        self.mixed = False        # derives from a plain class with instance dictionaries
        self.own = {}
        self.subs = dict(parent.subs) if parent else {}
        self.cls = None

    def chain(self):
        n = self
        while n is not None:
            yield n
            n = n.parent

    def fields(self):
        out = dict(self.parent.fields()) if self.parent else {}
        out.update(self.own)
        return out

    def sig(self):
        return tuple((tuple(sorted(n.own_opts.items())) if n.conf else None) for n in self.chain())


def is_open(node):
    return any(n.mixed or ('__dict__' in n.slots if n.slots is not None else not n.opts['slotted']) for n in node.chain())


def make_chain(rng, mon, depth):
    node = None
    for level in range(rng.choice([1, 1, 2, 2, 3, 4])):
        node = Node(node)
        ns = {'__module__': 'oblmon.generated'}
        items = []
        if rng.random() < .55:
            own = {}
            for k, p in (('ignore_extra', .6), ('slotted', .4), ('add_repr', .3), ('frozen', .1)):
                if rng.random() < p:
                    own[k] = rng.random() < .5
            base, inh = (BaseConf, {'ignore_extra': True}) if rng.random() < .15 else (oblate.SchemaConfig, {})
            if rng.random() < .1 and node.parent and node.parent.conf:
                base, inh = node.parent.conf, node.parent.opts
            conf = type('Conf', (base,), dict(own))
            node.conf, node.config = conf, conf
            node.opts = {**dict(ignore_extra=False, slotted=True, add_repr=True, frozen=False), **inh, **own}
            node.own_opts = node.opts
            items.append((rng.choice(['Config', 'Config', 'Config', 'Settings', 'SchemaOptions']), conf))
        else:
            if rng.random() < .15:
                # the defaults, stated: a subclass goes back to them
                node.conf, node.config = oblate.SchemaConfig, oblate.SchemaConfig
                node.opts = node.own_opts = dict(ignore_extra=False, slotted=True, add_repr=True, frozen=False)
                items.append((rng.choice(['Config', 'Settings']), oblate.SchemaConfig))
                mon.count('stated_defaults', node.parent is not None and node.parent.config is not oblate.SchemaConfig)
            mon.count('default_config', node.parent is None)
            mon.count('inherited_config', node.conf is None and node.parent is not None and node.parent.config is not oblate.SchemaConfig)
        for j in range(rng.choice([0, 1, 2]) if node.parent else rng.choice([0, 1, 2, 3])):
            name = f'{rng.choice(["f", "f", "f", "_f", "_", "g_"])}{level}{j}'
            lk = rng.choice([name, name, f'K{level}{j}'])
            kind = rng.choice(['any', 'int', 'str'])
            f = {'any': F.Any, 'int': F.Integer, 'str': F.String}[kind](required=False, load_key=lk, none=kind == 'any')
            node.own[name] = (lk, kind, None, None)
            items.append((name, f))
        if depth > 0 and rng.random() < .8:
            sub = make_chain(rng, mon, depth - 1)
            name = f'n{level}'
            kw = None
            if rng.random() < .5:
                kw = {}
                if rng.random() < .8:
                    kw['ignore_extra'] = rng.random() < .5
                if rng.random() < .3:
                    kw['state'] = [1]
            f = F.Object(sub.cls, required=False, **({'init_kwargs': kw} if kw is not None else {}))
            node.own[name] = (name, 'object', sub, kw)
            items.append((name, f))
        if rng.random() < .2:
            forms = [('ex',), ['ex', 'ey'], 'ex', (), {'ex': 'doc'}]
            if not any(n.mixed for n in node.chain()) and not (node.parent and is_open(node.parent)):
                forms.append(('__dict__',))
            node.slots = rng.choice(forms)
            items.append(('__slots__', node.slots))
        if rng.random() < .12:
            txt = f'custom-{next(_n)}'
            node.custom_repr = txt
            items.append(('__repr__', lambda self, txt=txt: txt))
        if rng.random() < .2:
            items.append(('Helper', type('Helper', (), {'ignore_extra': True, 'slotted': False})))
        if rng.random() < .1:
            items.append(('InnerSchema', type(oblate.Schema)('InnerSchema', (oblate.Schema,), {'Config': type('C', (oblate.SchemaConfig,), {'ignore_extra': True, 'slotted': False, 'add_repr': False}), '__module__': 'm'})))
        rng.shuffle(items)
        ns.update(items)
        bases = (node.parent.cls if node.parent else oblate.Schema,)
        if rng.random() < .2:
            # a plain class among the bases configures nothing
            inner = {'Config': type('Config', (), {'ignore_extra': True, 'frozen': True, 'slotted': False})} if rng.random() < .5 else {}
            node.mixed = rng.random() < .3 and '__dict__' not in (node.slots or ())
            mixin = type('Mixin', (), {**inner, 'helper': len} if node.mixed else {'__slots__': (), **inner, 'helper': len})
            bases = (mixin, *bases) if rng.random() < .5 else (*bases, mixin)
            mon.count('plain_base')
        name = f'Sch{next(_n)}x'
        if node.parent and rng.random() < .25:
            name = node.parent.cls.__name__
            mon.count('same_name')
        node.cls = type(oblate.Schema)(name, bases, ns)
    return node


def reentrant(rng, mon):
    """The class processes others of its own kind from user code: every call follows its own argument."""
    opts = {'ignore_extra': rng.random() < .5} if rng.random() < .8 else {}
    conf = opts.get('ignore_extra', False)
    args = [rng.choice([None, True, False]) for _ in range(4)]
    kws = [{} if a is None else {'ignore_extra': a} for a in args]
    says = [conf if a is None else a for a in args]
    how = rng.choice(['construct', 'update', 'construct'])
    where = rng.choice(['load', 'val', 'raw', 'post', 'dump'])
    seen = []

    def rejected(fn):
        try:
            fn()
        except oblate.ValidationError as e:
            return set(e.raw())
        return set()

    # another class, with a configuration of its own
    oconf = rng.random() < .5
    O = type(oblate.Schema)('O', (oblate.Schema,), {'plain': F.Any(required=False), '__module__': 'm', 'Config': type('Config', (oblate.SchemaConfig,), {'ignore_extra': oconf})})
    ready = O({})

    def inner(schema, level):
        for cls, own in rng.sample([(type(schema), conf), (O, oconf)], 2):
            for kw, want in ((kws[level], own if args[level] is None else args[level]), ({}, own)):
                if how == 'construct':
                    got = rejected(lambda: cls({'zz': 1, 'plain': 1}, **kw))
                elif cls is O:
                    got = rejected(lambda: ready.update({'zz': 1, 'plain': 1}, **kw))
                else:
                    x = cls({'plain': 2})
                    got = rejected(lambda: x.update({'zz': 1, 'plain': 1}, **kw))
                seen.append((level, got, want))

    def do(schema, value):
        if value in (1, 2):
            inner(schema, value)

    class Fld(F.Any):
        def value_load(self, value, ctx):
            if where == 'load':
                do(ctx.schema, value)
            return value

        def value_dump(self, value, ctx):
            if where == 'dump':
                do(ctx.schema, value)
            return value
    f = Fld(required=False)
    f.add_validator(lambda s, v, c: do(s, v) if where in ('val', 'raw') else None, raw=where == 'raw')

    def post(self):
        if where == 'post':
            do(self, self.get_value_for('f', None))
    ns = {'f': f, 'plain': F.Any(required=False), '__schema_post_init__': post, '__module__': 'm'}
    if opts:
        ns['Config'] = type('Config', (oblate.SchemaConfig,), opts)
    R = type(oblate.Schema)('R', (oblate.Schema,), ns)
    if rng.random() < .3:
        R = type(oblate.Schema)('R2', (R,), {'__module__': 'm'})
    top = rejected(lambda: R({'zz': 1, 'f': 0}, **kws[0]))
    check(bool(top) == (not says[0]), 'ignore_extra of the outer construction', opts=opts, args=args)
    r = R({'f': 1}, **kws[0])
    r.dump()
    top = rejected(lambda: r.update({'f': 2, 'zy': 1, 'plain': 0}, **kws[3]))
    check(top == (set() if says[3] else {'zy'}), 'an operation inside another one changed which unknown keys the outer one ignores', opts=opts, args=args, got=top, where=where, how=how)
    r2 = rejected(lambda: R({'f': 2, 'zy': 1, 'plain': 0}, **kws[3]))
    check(r2 == (set() if says[3] else {'zy'}), 'an operation inside another one changed which unknown keys the outer one ignores', opts=opts, args=args, got=r2, where=where, how=how)
    for level, got, want in seen:
        check(got == (set() if want else {'zz'}), 'an operation inside another one follows another ignore_extra than its own', opts=opts, other=oconf, args=args, level=level, got=got, where=where, how=how)
        mon.count('reentrant')
    mon.seen('reentrant', str(opts), str(args), where, how)


LONG = ''.join(f'{j:x} ' for j in range(1000))
PASSED = []     # instances given as values: context and state
UNKNOWN = ['zz', 'Config', '__config__', 'extra', 0, None, ('a',), '', 'context', '_field_values', 'f00 ', 'F00', True]


def gen(rng, mon, node, p, ie, path=()):
    """(data, expected unknown keys {path of keys}, values)."""
    d, bad = {}, {}
    items = []
    for name, (lk, kind, sub, kw) in node.fields().items():
        if rng.random() < .7:
            if kind == 'object':
                if rng.random() < .25:
                    # an instance made elsewhere: neither this call's nor the field's arguments concern it
                    sd, sb = gen(rng, mon, sub, 0, True)
                    sd = {**sd, 'zz': 1} if rng.random() < .5 else sd
                    st = rng.choice([None, None, None, [1], 'st'])
                    x = sub.cls(sd, ignore_extra=True, **({'state': st} if st is not None or rng.random() < .5 else {}))
                    PASSED.append((x, x.context, st, x.context.config))
                    items.append((lk, x))
                    mon.count('instance_passed')
                    continue
                si = sub.opts['ignore_extra'] if not kw or 'ignore_extra' not in kw else kw['ignore_extra']
                mon.count('init_kwargs', bool(kw) and 'ignore_extra' in kw)
                sd, sb = gen(rng, mon, sub, p, si, path + (lk,))
                items.append((lk, sd))
                if sb:
                    bad[lk] = sb
                mon.count('nested_unknown', bool(sb))
            else:
                items.append((lk, rng.choice([3, 7]) if kind == 'int' else rng.choice(['x', 'some text', 'x', 'some text', LONG[:rng.randrange(30, 3000)]]) if kind == 'str' else rng.choice([3, 7, None, 0, False, '', [], {}, list(range(rng.randrange(200))) if rng.random() < .1 else 1])))
    known = {lk for lk, *_ in node.fields().values()}
    for _ in range(rng.choice([1, 2]) if rng.random() < p else 0):
        k = rng.choice(UNKNOWN + [n for n, (lk, *_) in node.fields().items() if n != lk])
        if k in known or any(k == x for x, _ in items):
            continue
        items.append((k, rng.choice([1, None, {}, []])))
        if not ie:
            bad[k] = None
        mon.count('unknown_rejected' if not ie else 'unknown_ignored')
    rng.shuffle(items)
    d = dict(items)
    return (V.wrap_mapping(rng, d, .15) if rng.random() < .3 else d), bad


def errs(e):
    out = {}
    for k, ms in e.raw().items():
        check(len(ms) == 1, 'several errors for one unknown key', key=k, messages=ms)
        out[V.canon(k)] = tree(ms[0])
    return out


def tree(m):
    if isinstance(m, dict):
        return {V.canon(k): tree(ms[0]) for k, ms in m.items()}
    return None


def want(bad):
    return {V.canon(k): (want(x) if x is not None else None) for k, x in bad.items()}


def attempt(fn, bad, what, frozen=False, **info):
    try:
        x = fn()
    except oblate.FrozenError as e:
        check(frozen, f'{what} raises FrozenError', **info)
        return None
    except oblate.ValidationError as e:
        check(bad, f'{what} rejected unknown keys that are to be ignored', raw=e.raw(), **info)
        check(errs(e) == want(bad), f'{what} reports other unknown keys', expected=bad, raw=e.raw(), **info)
        return None
    check(not frozen, f'{what} of a frozen schema succeeds', **info)
    check(not bad, f'{what} ignored unknown keys that are to be rejected', expected=bad, **info)
    return x if x is not None else True


def settable(inst, name):
    v = V.Tagged(1)
    try:
        setattr(inst, name, v)
    except AttributeError:
        return False
    check(getattr(inst, name) is v, 'an extra attribute does not keep its value')
    return True


def options(c):
    return dict(ignore_extra=c.ignore_extra, slotted=c.slotted, add_repr=c.add_repr, frozen=c.frozen)


def look(rng, mon, node, inst, data):
    """Exposed configuration, extra attributes and representation of one instance."""
    c = inst.context.config
    mon.count('exposed')
    check(c is node.config, 'the context exposes another configuration', exposed=options(c), expected=node.opts, chain=node.sig())
    check(options(c) == node.opts, 'the configuration has other options', exposed=options(c), expected=node.opts, chain=node.sig())
    # representation
    chain = list(node.chain())
    text = repr(inst)
    if node.custom_repr is not None:
        check(text == node.custom_repr, 'the __repr__ of the class is not used', got=text)
        mon.count('repr_custom')
    elif all(n.custom_repr is None for n in chain):
        if node.opts['add_repr']:
            mon.count('repr_generated')
            mon.count('repr_long', len(text) > 1000)
            check(node.cls.__name__ in text, 'the representation does not name the schema', got=text, name=node.cls.__name__)
            for name, (lk, kind, sub, kw) in node.fields().items():
                v = inst.get_value_for(name, V.SENT)
                if v is V.SENT:
                    continue
                check(name in text, 'the representation does not name a set field', field=name, got=text)
                mon.count('repr_none', v is None)
                if kind != 'object':
                    check(repr(v) in text or str(v) in text, 'the representation does not have the value of a set field', field=name, value=v, got=text)
        elif not any(n.opts['add_repr'] for n in chain):
            mon.count('repr_off')
            check(text == object.__repr__(inst), 'a disabled representation was generated', got=text)
    # extra attributes
    opened = is_open(node)
    declared = {s for n in chain if n.slots is not None for s in ([n.slots] if isinstance(n.slots, str) else n.slots)}
    other = node.cls(dict(data), ignore_extra=True)
    before = V.canon(inst.dump()) if not node.subs else None
    for name in ('ex', 'ey', 'zz_extra', 'CONFIG'):
        exp = opened or name in declared
        check(settable(inst, name) == exp, 'an extra attribute can be set' if not exp else 'an extra attribute cannot be set', name=name, opened=opened, declared=declared, chain=[(n.slots, n.opts['slotted']) for n in chain])
        mon.count('slots_open', opened)
        mon.count('slots_closed', not exp)
        mon.count('slots_declared', name in declared and not opened)
        check(not hasattr(other, name), 'an extra attribute of one instance shows in another', name=name)
    d = inst.dump()
    check(not {'ex', 'ey', 'zz_extra', 'CONFIG'} & set(d), 'an extra attribute was dumped', dump=d)


def case(rng, mon, i, tier):
    PASSED.clear()
    if i % 6 == 0:
        reentrant(rng, mon)
    node = make_chain(rng, mon, rng.choice([0, 1, 1, 2]))
    nodes = list(node.chain())
    for n in ([node] if rng.random() < .5 else rng.sample(nodes, len(nodes))):
        for _ in range(rng.choice([1, 2])):
            arg = rng.choice([None, None, True, False])
            kw = {} if arg is None else {'ignore_extra': arg}
            mon.count('arg_true', arg is True)
            mon.count('arg_false', arg is False)
            ie = n.opts['ignore_extra'] if arg is None else arg
            data, bad = gen(rng, mon, n, rng.choice([0, .4, 1]), ie)
            info = dict(data=data, arg=arg, chain=[(x.opts, x.conf is not None) for x in n.chain()])
            x = attempt(lambda: n.cls(data, **kw), bad, 'construction', **info)
            mon.count('construct')
            mon.seen('construct', n.sig(), arg, bool(bad), any(v for v in bad.values()))
            good, _ = gen(rng, mon, n, 0, True)
            inst = x if x is not None else n.cls(good, ignore_extra=True) if not bad else None
            if inst is None:
                base, b2 = gen(rng, mon, n, 0, True)
                inst = n.cls({k: v for k, v in base.items() if not isinstance(v, dict) and not hasattr(v, 'items')})
                data = {}
            for name, (lk, kind, sub, k2) in n.fields().items():
                if x is not None and lk in list(data) and kind != 'object':
                    check(getattr(x, name) == data[lk], 'a value was lost next to unknown keys', field=name, **info)
            look(rng, mon, n, inst, {k: v for k, v in data.items() if isinstance(v, (int, str)) and k in {lk for lk, *_ in n.fields().values()}} if data else {})
            # update
            arg = rng.choice([None, None, True, False])
            kw = {} if arg is None else {'ignore_extra': arg}
            ie = n.opts['ignore_extra'] if arg is None else arg
            data, bad = gen(rng, mon, n, rng.choice([0, .4, 1]), ie)
            info = dict(data=data, arg=arg, chain=[(y.opts, y.conf is not None) for y in n.chain()])
            attempt(lambda: inst.update(data, **kw), bad, 'update', frozen=n.opts['frozen'], **info)
            mon.count('update')
            mon.seen('update', n.sig(), arg, bool(bad), any(v for v in bad.values()))
            # assignment of a nested mapping: the nested class and the field's arguments decide
            objs = [(name, f) for name, f in n.fields().items() if f[1] == 'object']
            if objs:
                name, (lk, kind, sub, k2) = rng.choice(objs)
                si = sub.opts['ignore_extra'] if not k2 or 'ignore_extra' not in k2 else k2['ignore_extra']
                sd, sb = gen(rng, mon, sub, .8, si)
                attempt(lambda: setattr(inst, name, sd), {lk: sb} if sb else {}, 'assignment', frozen=n.opts['frozen'], data=sd, init_kwargs=k2, sub=sub.opts)
                mon.count('assign')
                mon.seen('assign', sub.sig(), str(k2), bool(sb))
        if rng.random() < .2:
            noise.run(rng.randrange(99))
        for x, ctx, st, conf in PASSED:
            check(x.context is ctx and ctx.state is st and ctx.schema is x and ctx.is_initialized(), 'an instance passed as a value got another state or context', state=ctx.state, expected=st)
            check(ctx.config is conf, 'an instance passed as a value got another configuration', config=ctx.config)
    mon.sample(f'chain {[(x.opts if x.conf else None, x.slots) for x in node.chain()]} fields {node.fields()}')
