"""C25: hook and context protocol from the event log with states captured inside every callback."""
import collections
import types

import oblate
from oblate import fields as F, validate as VD

from .. import noise, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, MObj, SENT, World, check_verdict, cmp_values, instances

ID = 'C25'
QUICK, THOROUGH = 4500, 100000
RULE = ('random nested schemas with preprocessing hooks (returning the data, new and changed mappings of several types), post-init hooks, recording loaders, validators, defaults and dumpers, states; '
        'successful and failing constructions, updates, assignments, copies and selective dumps; inside every callback the contexts are read and marked; '
        'distinct by (operation, nesting, outcome, what the hook returned, kinds of callbacks of the value)')
NEED = ['pre_calls', 'post_calls', 'no_post', 'nested_pre', 'transformed', 'non_mapping', 'states', 'load_contexts', 'dump_contexts', 'shared_context', 'uninitialized', 'initialized', 'is_update', 'not_update',
        'nested_in_update', 'selected', 'readable_in_post', 'update_in_post', 'schema_as_state', 'defaults', 'no_hooks', 'failed_left_uninitialized', 'context_marks', 'recursive']


class Watch:
    """Reads and marks contexts inside every callback."""
    def __init__(self, w):
        self.w = w
        self.log = []

    def __call__(self, kind, spec, schema, value, ctx):
        ent = dict(kind=kind, spec=spec, schema=schema, value=value, ctx=ctx, index=len(self.w.events) - 1)
        if isinstance(schema, oblate.Schema):
            c = schema.context
            ent.update(sctx=c, init=c.is_initialized(), state=c.state, sctx_schema=c.schema)
            if kind in ('pre', 'post'):
                spec_ = type(schema).__monspec__
                ent['read'] = {f.name: schema.get_value_for(f.name, SENT) for f in spec_.all_fields()}
        if isinstance(ctx, (oblate.LoadContext, oblate.DumpContext)):
            ent['marks'] = dict(ctx.state)
            ent['fields'] = (ctx.field, ctx.schema, ctx.value)
            if isinstance(ctx, oblate.LoadContext):
                ent['upd'] = ctx.is_update()
            else:
                ent['included'] = set(ctx.included_fields)
            ctx.state[f'mark{len(self.log)}'] = kind
        self.log.append(ent)


def transform(rng, ss, w):
    """A preprocessing step: the same mapping object for the same data."""
    memo = {}
    mode = rng.choice(['new', 'drop', 'value', 'mapping', 'proxy', 'empty', 'rename'])
    # a mapping given to several nested schemas would hide which instance is which
    plain = [f for f in ss.all_fields() if f.kind != 'object']
    extra = rng.choice(plain) if plain else None
    if extra is None and mode == 'value':
        mode = 'drop'
    ok = w.good_value(extra, rng) if extra else None

    def pre(data):
        hit = memo.get(id(data))
        if hit is not None:
            return hit[1]
        d = dict(data)
        keys = {f.lk for f in ss.all_fields()}
        if mode == 'drop':
            d = {k: v for k, v in d.items() if k in keys}
        elif mode == 'value':
            d[extra.lk] = ok
        elif mode == 'rename' and d:
            k = next(iter(d))
            d['renamed ' + str(k)] = d.pop(k)
        elif mode == 'empty':
            d = {}
        out = V.MyMapping(d) if mode == 'mapping' else types.MappingProxyType(d) if mode == 'proxy' else d
        memo[id(data)] = (data, out)
        return out
    pre.mode = mode
    return pre


def verify(r, w, log, mon, top, state, op, include=None):
    evs = log
    inst = instances(r) if op != 'dump' else {}
    real = {}
    for fr in r.frames:
        x = inst.get(id(fr.mobj))
        if x is None:
            check(fr.op == 'init', 'harness: instance not seen', r=r)
            check(False, f'{op}: preprocess_data was not called with the data given to a construction', data=repr(fr.data), r=r)
        real[id(x)] = (fr, x)
    by = collections.defaultdict(list)
    for n, e in enumerate(evs):
        if isinstance(e['schema'], oblate.Schema):
            by[id(e['schema'])].append(n)
    # hooks
    for k, (fr, x) in real.items():
        mine = [evs[n] for n in by[k]]
        pres = [e for e in mine if e['kind'] == 'pre']
        posts = [e for e in mine if e['kind'] == 'post']
        info = dict(schema_=fr.ss.name, callbacks=[(e['kind'], getattr(e['spec'], 'name', None) or getattr(e['spec'], 'id', '')) for e in mine], r=r)
        nested = x is not top
        if fr.op != 'init':
            check(not pres and not posts, f'{op}: a lifecycle hook of the schema was called', **info)
            mon.count('no_hooks')
        else:
            check(len(pres) == 1, f'{op}: preprocess_data was called {len(pres)} times in one construction', **info)
            check(mine[0]['kind'] == 'pre', f'{op}: user code ran before preprocess_data', **info)
            check(pres[0]['value'] is fr.data, f'{op}: preprocess_data did not get the data given', **info)
            check(all(v is SENT for v in pres[0]['read'].values()), f'{op}: a field has a value before preprocess_data', read=pres[0]['read'], **info)
            mon.count('pre_calls')
            mon.count('nested_pre', nested)
            mon.count('transformed', fr.ss.pre is not None)
            done = fr.ok
            check(len(posts) == (1 if done else 0), f'{op}: the post-init hook was called {len(posts)} times in a {"successful" if done else "failed"} construction', **info)
            if done:
                check(mine[-1]['kind'] == 'post', f'{op}: user code of the construction ran after the post-init hook', **info)
                got = {n: V.canon(v) for n, v in posts[0]['read'].items() if v is not SENT}
                exp = {n: V.canon(v) for n, v in fr.mobj.vals.items()}
                check(got == exp, f'{op}: the post-init hook does not read the values', got=got, expected=exp, **info)
                mon.count('readable_in_post')
                mon.count('post_calls')
                check(posts[0]['init'] is True, f'{op}: the context is uninitialized in the post-init hook', **info)
                check(x.context.is_initialized(), f'{op}: the context of a constructed schema is uninitialized', **info)
                mon.count('initialized')
            else:
                mon.count('no_post')
                check(not x.context.is_initialized(), f'{op}: the context of a schema that failed to construct is initialized', **info)
                mon.count('failed_left_uninitialized')
            check(x.context.schema is x, f'{op}: a context belongs to another schema', **info)
            st = fr.mobj.state
            check(all(e['state'] is st for e in mine), f'{op}: the context has another state than the one passed in', passed=repr(st), seen=[repr(e['state']) for e in mine], **info)
            mon.count('states', st is not None)
        for e in mine:
            check(e['sctx'] is x.context and e['sctx_schema'] is x, f'{op}: the schema context changed during an operation', **info)
            if e['kind'] in ('pre', 'load', 'raw', 'val', 'default'):
                check(e['init'] is (fr.op != 'init'), f'{op}: the context reports the wrong stage', kind=e['kind'], initialized=e['init'], **info)
                mon.count('uninitialized' if fr.op == 'init' else 'initialized')
            if 'upd' in e:
                check(e['upd'] is (fr.op != 'init'), f'{op}: is_update() is wrong', kind=e['kind'], is_update=e['upd'], **info)
                mon.count('is_update' if e['upd'] else 'not_update')
                mon.count('nested_in_update', op != 'construct' and not e['upd'])
            if e['kind'] == 'default':
                f = e['spec']
                check(e['ctx'] is x.context, f'{op}: a default was not called with the schema context', **info)
                check(e['value'] is getattr(type(x), f.name), f'{op}: a default was not called with the field', **info)
                mon.count('defaults')
        if fr.op == 'init':
            dd = collections.Counter(e['spec'].fid for e in mine if e['kind'] == 'default')
            check(dd == collections.Counter(f.fid for f in fr.defaults), f'{op}: callable defaults were called another number of times', calls=dd, expected=[f.name for f in fr.defaults], **info)
        mon.seen(op, fr.op, nested, fr.ok, fr.ss.pre.mode if fr.ss.pre else '', tuple(sorted({e['kind'] for e in mine})))
    for k in by:
        if op != 'dump':
            check(k in real, f'{op}: user code ran for a schema that is not processed', r=r)
    # value contexts
    ctxs = {}
    users = collections.defaultdict(list)
    for e in evs:
        if e['kind'] in ('load', 'raw', 'val', 'dump'):
            ctxs[id(e['ctx'])] = e['ctx']
            users[id(e['ctx'])].append(e)
    per_value = collections.defaultdict(set)
    for k, es in users.items():
        owner = lambda e: e['spec'].owner if e['kind'] in ('raw', 'val') else e['spec']
        f = owner(es[0])
        info = dict(op=op, field=f.name, callbacks=[(e['kind'], getattr(e['spec'], 'id', '')) for e in es], r=r)
        check(all(owner(e) is f and e['schema'] is es[0]['schema'] for e in es), 'one context was used for several values', **info)
        check(isinstance(ctxs[k], oblate.DumpContext if op == 'dump' else oblate.LoadContext), 'a context of another kind', **info)
        for e in es:
            fld, sch, val = e['fields']
            check(sch is e['schema'] and fld is getattr(type(sch), f.name), 'a context has another field or schema', **info)
            check(val is es[0]['fields'][2], 'the value of a context changed', **info)
        seen = {}
        for e in es:
            check(e['marks'] == seen, 'the state of a value context is not empty at first, or not kept between its users', found=e['marks'], expected=seen, **info)
            seen = dict(e['marks'])
            seen[f'mark{e["pos"]}'] = e['kind']
            mon.count('context_marks')
        mon.count('shared_context', len({e['kind'] for e in es}) > 1)
        if op == 'dump':
            mon.count('dump_contexts')
        else:
            mon.count('load_contexts')
        per_value[id(es[0]['schema']), f.fid].add(k)
    if op != 'dump':
        for k, s in per_value.items():
            check(len(s) == 1, f'{op}: several contexts for one value', r=r)
        for k, (fr, x) in real.items():
            for mf in fr.mfs:
                for e in [evs[n] for n in by[k]]:
                    if e['kind'] in ('load', 'raw', 'val') and (e['spec'].owner if e['kind'] != 'load' else e['spec']) is mf.f:
                        check(e['fields'][2] is mf.raw, f'{op}: a context has another raw value', got=repr(e['fields'][2]), expected=repr(mf.raw), r=r)


def verify_dump(r, w, log, mon, top, sel):
    verify(r, w, log, mon, top, None, 'dump')
    for e in log:
        check(e['kind'] in ('dump', 'fmt'), 'dump: a lifecycle hook or loader was called', kind=e['kind'], r=r)
        if e['kind'] != 'dump':
            continue
        x = e['schema']
        spec = type(x).__monspec__
        names = {f.name for f in spec.all_fields()}
        want = sel & names if x is top else names
        check(e['included'] == want, 'dump: a context has other selected fields', included=e['included'], selected=want, r=r)
        check(e['fields'][2] is x.get_value_for(e['spec'].name), 'dump: a context has another value', r=r)
        mon.count('selected', want != names)


def pos(log):
    for n, e in enumerate(log):
        e['pos'] = n
    return log


class Hooked(oblate.Schema):
    """Hand-written hooks: updates from the post-init hook, failing hooks."""
    a = F.Integer()
    b = F.String(required=False, none=True)
    log = None
    ret = None
    act = None

    class Config(oblate.SchemaConfig):
        slotted = False

    def preprocess_data(self, data):
        Hooked.log.append(('pre', self, self.context.is_initialized(), data))
        return Hooked.ret[0] if Hooked.ret and data.get('b') != 'nest' else data

    @VD.field(a)
    def chk(self, value, ctx):
        Hooked.log.append(('val', self, ctx.is_update(), value))
        assert value != 13

    def __schema_post_init__(self):
        Hooked.log.append(('post', self, self.context.is_initialized(), self.a))
        if Hooked.act:
            Hooked.act(self)


class Spy(oblate.Schema):
    """A schema that is the state of another one."""
    x = F.Any(required=False, validators=[lambda schema, value, ctx: Spy.calls.append('validator')])
    calls = []

    def preprocess_data(self, data):
        Spy.calls.append('pre')
        return data

    def __schema_post_init__(self):
        Spy.calls.append('post')


class Holder(oblate.Schema):
    h = F.Object(Hooked, required=False, init_kwargs={'state': 'inner'})
    x = F.Any(required=False)


def by_hand(rng, mon):
    log = Hooked.log = []
    Hooked.ret = Hooked.act = None
    k = rng.randrange(5)
    deep = rng.random() < .5
    make = (lambda d, **kw: Holder({'h': d}).h) if deep else (lambda d, **kw: Hooked(d, **kw))
    if k == 0:
        # what the hook returns is no mapping
        for bad in rng.sample([None, 5, 'ab', [('a', 1)], {1}, (), object()], 3):
            Hooked.ret = [bad]
            try:
                make({'a': 1})
            except TypeError:
                mon.count('non_mapping')
            else:
                check(False, 'a preprocess_data result that is no mapping was accepted', returned=bad, deep=deep)
        check([e[0] for e in log] == ['pre'] * 3, 'user code ran although preprocess_data gave no mapping', log=log)
        for bad in (None, 5, [('a', 1)], 'a'):
            log.clear()
            try:
                Hooked(bad)
            except TypeError:
                check(not [e for e in log if e[0] != 'pre'], 'fields were loaded from data that is no mapping', log=log)
            else:
                check(False, 'data that is no mapping was accepted', data=bad)
    elif k == 1:
        def act(s):
            s.update({'a': 5})
            s.b = 'set'
            try:
                s.update({'a': 13})
            except oblate.ValidationError:
                pass
        Hooked.act = act
        h = make({'a': 1})
        check([(e[0], e[2]) for e in log] == [('pre', False), ('val', False), ('post', True), ('val', True), ('val', True)], 'wrong stages around updates made by the post-init hook', log=log)
        check(h.a == 5 and h.b == 'set', 'updates made by the post-init hook are lost', a=h.a, b=h.b)
        check(h.context.state == ('inner' if deep else None), 'wrong state')
        mon.count('update_in_post')
    elif k == 2:
        h = make({'a': 1, 'b': None})
        log.clear()
        outer = Holder({'h': h})
        check(outer.h is h and not log, 'hooks ran for a schema instance that was passed in', log=log)
        c = h.copy()
        outer.copy()
        h.dump()
        outer.dump()
        h.update({'b': 'q'})
        h.b = None
        outer.x = 1
        check(not log, 'hooks or validators ran although no construction happened', log=log)
        h.update({'a': 4})
        c.a = 7
        check([(e[0], e[1] is h, e[2]) for e in log] == [('val', True, True), ('val', False, True)] and log[1][1] is c, 'wrong callbacks in an update', log=log)
        outer.h = {'a': 9}
        check([e[0] for e in log[2:]] == ['pre', 'val', 'post'] and log[3][2] is False, 'an assigned mapping is not constructed with its hooks', log=log)
    elif k == 3:
        st = rng.choice([None, [1], {'q': 1}, 'st', 0, V.Tagged(1), {}, [], Hooked({'a': 3}), Spy({'x': 2}), Hooked, V.EqualsAll(1)])
        log.clear()
        h = Hooked({'a': 1}, state=st)
        check([x[0] for x in log] == ['pre', 'val', 'post'] and all(x[1] is h for x in log), 'hooks of a schema used as state ran, or those of the schema did not', log=log)
        check(h.context.state is st and h.context.schema is h and h.context.is_initialized(), 'the context does not carry the state passed in', passed=st)
        try:
            Hooked({'a': 13}, state=st)
        except oblate.ValidationError as e:
            check(not e.schema.context.is_initialized() and e.schema.context.state is st, 'the context of a failed construction is wrong')
            check([x[0] for x in log[-2:]] == ['pre', 'val'], 'the post-init hook ran after a failure', log=log)
    else:
        exc = rng.choice([KeyError, RuntimeError, ValueError])('post')

        def act(s):
            raise exc
        Hooked.act = act
        try:
            Hooked({'a': 1})
        except Exception as e:
            check(e is exc, 'an exception of the post-init hook was replaced', got=repr(e))
        else:
            check(False, 'an exception of the post-init hook was lost')
    Hooked.ret = Hooked.act = None
    mon.seen('hand', k, deep)


def recursive(rng, mon):
    """Callbacks that process further values of the very schema being processed."""
    log = []
    budget = [rng.choice([1, 2, 4])]
    where = rng.sample(['load', 'raw', 'val', 'default', 'post'], rng.choice([1, 2, 3]))
    stage = {}              # id of schema -> (schema, whether construction has succeeded)

    def note(kind, schema, name, value, ctx):
        stage.setdefault(id(schema), [schema, False])
        done = stage[id(schema)][1]
        check(schema.context.is_initialized() is done, 'the context reports the wrong stage while user code works on the schema itself', kind=kind, initialized=schema.context.is_initialized(), constructed=done, where=where)
        if isinstance(ctx, oblate.LoadContext):
            check(ctx.is_update() is done, 'is_update() is wrong while user code works on the schema itself', kind=kind, is_update=ctx.is_update(), constructed=done, where=where)
            log.append((kind, schema, name, value, ctx))
            check(ctx.schema is schema and ctx.field is getattr(type(schema), name), 'a context has another field or schema', kind=kind)
            raw = value if kind != 'val' else value[0]
            check(ctx.value is raw, 'a context has another raw value than the one being processed', kind=kind, got=repr(ctx.value), processed=repr(raw), where=where)
            users = ctx.state.setdefault('users', [])
            check(all(u[1] is raw for u in users) and kind not in [u[0] for u in users] and len(ctx.state) == 1, 'the state of a value context was used for another value', users=users, kind=kind, processed=repr(raw), where=where)
            users.append((kind, raw))

    def again(kind, schema):
        if kind not in where or budget[0] <= 0:
            return
        budget[0] -= 1
        if rng.random() < .3:
            other = type(schema)({rng.choice(['a', 'b']): Box(9)})
            check(stage[id(other)][1] and hooks.count(id(other)) == 1 and other.context.is_initialized(), 'the hook of a schema constructed inside a callback did not run exactly once', kind=kind)
            others.append(other)
            mon.count('inner_construct')
            return
        name = rng.choice(['a', 'b'])
        # a new value, or one equal to the one being processed
        v = rng.choice([Box(5), Box(5), Box(6), [1], [1]])
        act = rng.choice(['assign', 'assign', 'update', 'both', 'fail', 'empty', 'copy', 'dump'])
        if act == 'assign':
            setattr(schema, name, v)
        elif act == 'update':
            schema.update({name: v})
        elif act == 'both':
            schema.update({'a': v, 'b': v})
        elif act == 'empty':
            schema.update({})
        elif act == 'copy':
            c = schema.copy()
            check(c.context.schema is c, 'the context of a copy is wrong')
        elif act == 'dump':
            schema.dump()
        else:
            try:
                schema.update({'no such': 1, name: v})
            except oblate.ValidationError:
                pass
            else:
                check(False, 'an unknown key was accepted')
        mon.count('recursive', act in ('assign', 'update', 'both', 'fail'))
        mon.seen('recursive', kind, act, name, len(where))

    class Fld(F.Any):
        def value_load(self, value, ctx):
            note('load', ctx.schema, self.names, value, ctx)
            again('load', ctx.schema)
            return (value, 'loaded')

    def fld(name, **kw):
        f = Fld(required=False, **kw)
        f.names = name

        def raw(schema, value, ctx):
            note('raw', schema, name, value, ctx)
            again('raw', schema)

        def val(schema, value, ctx):
            note('val', schema, name, value, ctx)
            again('val', schema)
        if rng.random() < .8:
            f.add_validator(raw, raw=True)
        if rng.random() < .8:
            f.add_validator(val)
        return f

    def default(ctx, field):
        note('default', ctx.schema, 'd', None, None)
        again('default', ctx.schema)
        return 1

    hooks, others = [], []

    def post(self):
        hooks.append(id(self))
        check(not stage.get(id(self), [None, False])[1], 'the post-init hook was called twice')
        stage[id(self)] = [self, True]
        note('post', self, '', None, None)
        again('post', self)

    def pre(self, data):
        note('pre', self, '', None, None)
        return data
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': fld('a'), 'b': fld('b'), 'd': F.Any(required=False, default=default), '__schema_post_init__': post, 'preprocess_data': pre, '__module__': 'm'})
    if rng.random() < .3:
        O = type(oblate.Schema)('O', (oblate.Schema,), {'s': F.Object(S), '__module__': 'm'})
        make = lambda d: O({'s': d}).s
    else:
        make = S
    s = make({k: Box(5) for k in rng.sample(['a', 'b'], rng.choice([1, 2]))})
    check(stage[id(s)][1] and s.context.is_initialized(), 'the context of a constructed schema is uninitialized')
    budget[0] = rng.choice([0, 1, 3])
    s.update({'a': Box(7), 'b': Box(5)})
    s.b = Box(8)
    ctxs = {}
    for kind, schema, name, value, ctx in log:
        ctxs.setdefault(id(ctx), []).append(kind)
    check(all(len(set(k)) == len(k) for k in ctxs.values()), 'one context was used for several values', ctxs=list(ctxs.values()))


class Box:
    """Equal to others of its kind."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Box) and o.n == self.n

    __hash__ = None

    def __repr__(self):
        return f'Box({self.n})'


def case(rng, mon, i, tier):
    if i % 4 == 1:
        recursive(rng, mon)
    if i % 4 == 0:
        by_hand(rng, mon)
    w = World(rng)
    w.twins = False
    w.use_ctx_state = False
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 4], dump_rates=[0, 0, 5], p_object=.4, p_instr=.9, validators=.7, vrate=rng.choice([0, 0, 3, 6]), p_default=.3, p_frozen=.05, p_fmt=.2)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)

    def subs(s):
        yield s
        for f in s.all_fields():
            if f.sub is not None:
                yield from subs(f.sub)
    for s in subs(ss):
        if rng.random() < .3 and s.pre is None:
            s.pre = transform(rng, s, w)
    watch = w.on_step = Watch(w)
    noisy = rng.random() < .2
    insts = []
    for _ in range(rng.choice([1, 2, 3])):
        st = rng.choice([None, None, {'a': 1}, [1], 'state', V.Tagged(5), {}, [], 0, '', False, Spy({'x': 1}), *(real for real, _ in insts[:1])])
        Spy.calls.clear()
        d = w.gen_data(ss, rng, rng.choice([0, 0, 1, 2]), p_opt=rng.choice([.4, .8, 1]))
        w.events, watch.log = [], []
        if noisy:
            noise.run(rng.randrange(99))
        watch.log = []
        r = w.construct(ss, d, state=st)
        check_verdict(r)
        top = instances(r).get(id(r.frame.mobj))
        check(top is not None, 'construct: preprocess_data was not called with the data given to a construction', r=r)
        verify(r, w, pos(watch.log), mon, top, st, 'construct')
        check(not Spy.calls, 'user code of a schema used as state was called', calls=Spy.calls)
        mon.count('schema_as_state', isinstance(st, oblate.Schema))
        if r.ok:
            cmp_values(r.real, r.mobj, r=r)
            insts.append((r.real, r.mobj))
    if not insts:
        return
    for _ in range(rng.choice([2, 4, 6])):
        real, mobj = rng.choice(insts)
        op = rng.choice(['update', 'assign', 'dump', 'dump', 'copy'])
        if op == 'update':
            d = w.gen_data(ss, rng, rng.choice([0, 0, 1, 2]), p_opt=.6)
            watch.log = []
            r = w.update(real, mobj, d)
            if check_verdict(r) != 'frozen':
                verify(r, w, pos(watch.log), mon, real, None, 'update')
        elif op == 'assign':
            f = rng.choice(ss.all_fields())
            v = w.ok_value(f, rng)[0] if rng.random() < .7 else w.fail_value(f, rng)[0]
            watch.log = []
            r = w.assign(real, mobj, f, v)
            if check_verdict(r) != 'frozen':
                verify(r, w, pos(watch.log), mon, real, None, 'assign')
        elif op == 'dump':
            names = [f.name for f in ss.all_fields()]
            s = set(rng.sample(names, rng.randrange(len(names) + 1)) + ['no field'])
            kw, sel = rng.choice([({}, set(names)), ({'include': s}, s), ({'exclude': s}, set(names) - s)])
            watch.log = []
            r = w.dump(real, mobj, **kw)
            check_verdict(r)
            verify_dump(r, w, pos(watch.log), mon, real, sel)
        else:
            watch.log = []
            c = real.copy()
            check(not watch.log, 'copy: user code was called', callbacks=[e['kind'] for e in watch.log])
            check(c.context.is_initialized() and c.context.schema is c and c.context is not real.context, 'the context of a copy is wrong')
            mon.count('no_hooks')
        check(real.context.is_initialized() and real.context.schema is real, f'{op}: the schema context changed')
    w.on_step = None
    mon.sample(f'{ss!r}: {[e["kind"] for e in watch.log]}')
    texpr.release(None)
