"""C03: attribution (schema, key, field, context) of every reported error, with re-entrant callbacks."""
import oblate
from oblate import fields as F, validate as VD

from .. import noise, scale, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, MObj, World, check_verdict, instances, keyid, match_errors

ID = 'C03'
QUICK, THOROUGH = 7000, 160000
RULE = ('random nested schemas, failing construct/update/assign/dump, callbacks re-enter the library (25 kinds of succeeding and failing operations); each matched '
        'error is attributed to its instance by object identity; distinct by (operation, failure origin, depth, renamed key)')
NEED = ['construct', 'update', 'assign', 'dump', 'attributed', 'attributed_context', 'attributed_nested', 'reentrant_ops', 'unknown_key', 'foreign_errors', 'kept_errors', 'large']


def consistent(errors, schema, out, how):
    """All errors of one report name its schema; those of nested reports one instance each."""
    for fe in errors:
        if fe.schema is not schema:
            out.append((how, fe.key, fe.message, type(schema).__name__))
        m = fe.message
        if type(m) is dict and m and all(type(x) is list and x and all(isinstance(y, oblate.FieldError) for y in x) for x in m.values()):
            sub = [y for x in m.values() for y in x]
            consistent(sub, sub[0].schema, out, how + ' nested')


def nested_use(fn, cls, live, out):
    """A construction inside a callback: its failure is reported for its own instance."""
    def run():
        try:
            fn()
        except oblate.ValidationError as e:
            if type(e.schema) is not cls or any(e.schema is x for x in live()):
                out.append(('ValidationError.schema', None, e.errors, type(e.schema).__name__))
            consistent(e.errors, e.schema, out, 'errors')
    return run


def live_update(live, out):
    """An update, inside a callback, of the schema being processed: an unknown key names no field."""
    def run():
        x = live()[-1]
        try:
            x.update({'no such key': 1, 'zz ': None})
        except oblate.ValidationError as e:
            if e.schema is not x or len(e.errors) != 2 or any(fe.schema is not x or fe.field is not None or fe.key not in ('no such key', 'zz ') for fe in e.errors):
                out.append(('update of the schema being processed', None, [(fe.key, fe.field, fe.schema is x) for fe in e.errors], e.schema is x))
    return run


def attribute(r, mon, inst, top):
    pairs = []
    diff = match_errors(r.exc.errors, r.merrs, pairs)
    check(diff is None, f'{r.op}: reported errors differ: {diff}', r=r)
    check(r.exc.schema is top, f'{r.op}: ValidationError.schema is not the instance the operation was called on', r=r, schema=repr(r.exc.schema))
    for fe, e in pairs:
        mon.count('attributed')
        if isinstance(e.mo, MObj):
            real = inst.get(id(e.mo)) if r.op != 'dump' else e.mo.real
        else:
            real = e.mo
        check(real is not None, 'harness: instance not observed', r=r)
        info = dict(error=repr(e), fe_schema=type(fe.schema).__name__, fe_key=repr(fe.key), fe_field=repr(fe.field), r=r)
        if real is not top:
            mon.count('attributed_nested')
        check(fe.schema is real, f'{r.op}: error attributed to another schema instance', **info)
        check(keyid(fe.key) == keyid(e.key), f'{r.op}: error has another key', **info)
        if e.f is None:
            mon.count('unknown_key')
            check(fe.field is None, f'{r.op}: error of an unknown key names a field', **info)
        else:
            check(fe.field is getattr(type(real), e.f.name), f'{r.op}: error names another field', **info)
        if e.ctx is not None:
            mon.count('attributed_context')
            c = fe.context
            check(isinstance(c, oblate.DumpContext if r.op == 'dump' else oblate.LoadContext), f'{r.op}: error context is {type(c).__name__}', **info)
            check(c.schema is real, f'{r.op}: error context belongs to another schema', ctx=type(c.schema).__name__, **info)
            check(c.field is getattr(type(real), e.ctx[0].name), f'{r.op}: error context belongs to another field', ctx=repr(c.field), **info)
            check(c.value is e.ctx[1] or V.same(c.value, e.ctx[1]), f'{r.op}: error context has another value', ctx=repr(c.value), **info)
        mon.seen(r.op.split()[0], e.origin.split()[0], real is top, e.f is not None and e.f.lk != e.f.name, e.ctx is not None, e.f.kind if e.f else '')


def foreign(rng, mon):
    """User code raises an error object that belongs to the failure of another schema."""
    where = rng.choice(['val', 'raw', 'load', 'dump', 'fmt'])
    got = []

    class B(oblate.Schema):
        b = F.Integer(load_key=rng.choice(['b', 'B']))
        c = F.Integer(required=False)

    def other():
        k = rng.randrange(3)
        try:
            if k == 0:
                B({'zz': 1} if rng.random() < .5 else {B.b.load_key: 'no'})
            else:
                b = B({B.b.load_key: 1})
                b.update({'c': 'no'}) if k == 1 else setattr(b, 'c', None)
        except oblate.ValidationError as e:
            got.append(e)
            return e.errors[0]
        check(False, 'a failing operation succeeded')

    class Fld(F.Any):
        def value_load(self, value, ctx):
            if where == 'load' and value == 'bad':
                raise other()
            if where == 'fmt' and value == 'bad':
                raise ValueError()
            return value

        def value_dump(self, value, ctx):
            if where == 'dump' and value == 'bad':
                raise other()
            return value

        def format_error(self, code, ctx):
            return other() if where == 'fmt' else None
    x = Fld(required=False)

    def v(schema, value, ctx):
        if where in ('val', 'raw') and value == 'bad':
            raise other()
    x.add_validator(v, raw=where == 'raw')
    A = type(oblate.Schema)('A', (oblate.Schema,), {'first': F.Integer(required=False), 'x': x, 'last': F.Integer(required=False), '__module__': 'm'})
    O = type(oblate.Schema)('O', (oblate.Schema,), {'a': F.Object(A), 'q': F.Any(required=False), '__module__': 'm'})
    d = {'x': 'bad'}
    if rng.random() < .4:
        d = {'first': 'no', **d}
    if rng.random() < .4:
        d['last'] = 'no'
    nested = rng.random() < .4
    top = [None]

    class Seen:
        def __schema_post_init__(self):
            pass

        def preprocess_data(self, data):
            top.append(self)
            return data
    C = type(oblate.Schema)('C', (O if nested else A,), {'preprocess_data': Seen.preprocess_data, '__module__': 'm'})
    op = 'dump' if where == 'dump' else rng.choice(['construct', 'construct', 'update', 'assign'])
    if op == 'construct':
        run = lambda: C({'a': d} if nested else d)
    else:
        inst = C({'a': {'x': 'bad' if op == 'dump' else 'ok'}} if nested else {'x': 'bad' if op == 'dump' else 'ok'})
        if op == 'dump':
            run = inst.dump
        elif op == 'update':
            run = lambda: inst.update({'a': d} if nested else d)
        else:
            run = lambda: setattr(inst, 'a', d) if nested else setattr(inst, 'x', 'bad')
    try:
        run()
    except oblate.ValidationError as e:
        check(e.schema is top[-1], 'ValidationError.schema is not the instance the operation was called on, when user code raises an error of another schema', op=op, where=where, nested=nested,
              schema=type(e.schema).__name__)
        for fe in e.errors:
            if not nested and all(fe is not x for g in got for x in g.errors):
                check(fe.schema is top[-1] and fe.key in ('first', 'last'), 'an error of the schema itself is attributed to another one', op=op, where=where, key=fe.key, schema=type(fe.schema).__name__)
        mon.count('foreign_errors')
        mon.seen('foreign', op, where, nested, len(e.errors))
    else:
        check(False, 'the operation succeeded although user code raised a field error', op=op, where=where, nested=nested)
    for g in got:
        check(type(g.schema) is B and g.errors[0].schema is g.schema, 'the failure user code handled was attributed to another schema afterwards', op=op, where=where)


def kept_errors(rng, mon):
    """An error with several messages made while another schema was processed, raised again by user code."""
    made = []
    msgs = rng.choice([['a', 'b'], ('a', 'b', 'c'), {'a'}, ['a', {'k': 'b'}], ['a']])

    class B(oblate.Schema):
        b = F.Any(load_key=rng.choice(['b', 'B']))

        @VD.field(b)
        def check_b(self, value, ctx):
            made.append((oblate.FieldError(msgs, state=made), self, ctx))
            raise made[-1][0] if rng.random() < .5 else ValueError()
    try:
        B({B.b.load_key: 1})
    except oblate.ValidationError:
        pass
    exc, schema, ctx = made[0]
    where = rng.choice(['val', 'raw', 'load', 'dump'])

    class Fld(F.Any):
        def value_load(self, value, c):
            if where == 'load' and value == 'bad':
                raise exc
            return value

        def value_dump(self, value, c):
            if where == 'dump' and value == 'bad':
                raise exc
            return value
    x = Fld(required=False)

    def v(s, value, c):
        if where in ('val', 'raw') and value == 'bad':
            raise exc
    x.add_validator(v, raw=where == 'raw')
    A = type(oblate.Schema)('A', (oblate.Schema,), {'x': x, '__module__': 'm'})
    nested = rng.random() < .4
    O = type(oblate.Schema)('O', (oblate.Schema,), {'a': F.Object(A), '__module__': 'm'}) if nested else A
    bad, ok = ({'a': {'x': 'bad'}}, {'a': {}}) if nested else ({'x': 'bad'}, {})
    how = 'dump' if where == 'dump' else rng.choice(['construct', 'update', 'assign'])
    inst = O(bad if how == 'dump' else ok) if how != 'construct' else None
    try:
        {'construct': lambda: O(bad), 'update': lambda: inst.update(bad), 'assign': lambda: setattr(inst, *list(bad.items())[0]), 'dump': lambda: inst.dump()}[how]()
    except oblate.ValidationError as e:
        es = [y for fe in e.errors for ys in fe.message.values() for y in ys] if nested else e.errors
        info = dict(how=how, where=where, nested=nested, messages=msgs)
        check(len(es) == len(msgs), 'an error with several messages is not reported once per message', got=len(es), **info)
        for fe in es:
            check(fe.schema is schema and fe.context is ctx and fe.key == B.b.load_key and fe.field is B.b and fe.state is made, 'the parts of an error made in the operation of another schema name something else than it did',
                  schema=type(fe.schema).__name__, key=fe.key, **info)
        mon.count('kept_errors')
        mon.seen('kept', how, where, nested, type(msgs).__name__, len(msgs))
    else:
        check(False, 'the operation succeeded although user code raised a field error')


def large(rng, mon):
    """Failures of large data, attributed at every level."""
    depth, width = scale.shape(rng)
    n = scale.node(rng, depth, width)
    good = scale.data(rng, n, 0)[0]
    update = rng.random() < .4
    d, vals, rep = scale.data(rng, n, rng.choice([.02, .1, .5]), update=update)
    seen = []
    try:
        if update:
            a = n.cls(good)
            a.update(d)
        else:
            a = None
            n.cls(d)
    except oblate.ValidationError as e:
        own = scale.attributed(n, e.errors, rep, d, seen)
        check(e.schema is own and (a is None or a is own), 'a large failure is reported for another instance', update=update)
        mon.count('large')
        mon.seen('large', depth, width // 20, len(seen) // 20, update)


def case(rng, mon, i, tier):
    if rng.random() < .015:
        large(rng, mon)
    if rng.random() < .08:
        foreign(rng, mon)
    if rng.random() < .08:
        kept_errors(rng, mon)
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 3, 6], dump_rates=[0, 4, 9], p_fmt=.5, p_object=.35, p_keys=.8, vrate=rng.choice([0, 2, 5]), p_frozen=.05)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2, 3]), prof)
    p = rng.choice([0, .3, .7, 1])
    good = w.gen_data(ss, rng, 0)
    bad = []
    if p:
        part = w.gen_data(ss, rng, 2, p_opt=.5)
        live = lambda: [ev.schema for ev in w.events]
        inside = [lambda: ss.cls({'zz': 1}), lambda: ss.cls(good), lambda: ss.cls({}), lambda: ss.cls(part), lambda: ss.cls(dict(part), ignore_extra=True)]
        noise.install(w, rng, p, mon, [nested_use(fn, ss.cls, live, bad) for fn in inside] + [live_update(live, bad), lambda: ss.cls(good).update({'q': 1, 'zz': None})])
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < .3:
            noise.run(rng.randrange(100))
        data = w.gen_data(ss, rng, rng.choice([0, 1, 1, 2, 4]), p_opt=rng.choice([.4, .8, 1]))
        r = w.construct(ss, data)
        if check_verdict(r) == 'errors':
            mon.count('construct')
            inst = instances(r)
            attribute(r, mon, inst, inst.get(id(r.frame.mobj)))
            mon.sample(f'{ss!r} <- {data!r}: {r.merrs!r}')
        if not r.ok:
            data = good
            r = w.construct(ss, data)
            if not r.ok:
                continue
        real, mobj = r.real, r.mobj
        for _ in range(rng.choice([1, 2, 3, 4])):
            op = rng.randrange(3)
            if op == 0:
                d = w.gen_data(ss, rng, rng.choice([0, 1, 2, 4]), p_opt=.5)
                r = w.update(real, mobj, d)
                if check_verdict(r) == 'errors':
                    mon.count('update')
                    attribute(r, mon, instances(r), real)
            elif op == 1 and ss.all_fields():
                f = rng.choice(ss.all_fields())
                v = w.fail_value(f, rng)[0] if rng.random() < .8 else w.ok_value(f, rng)[0]
                r = w.assign(real, mobj, f, v)
                if check_verdict(r) == 'errors':
                    mon.count('assign')
                    attribute(r, mon, instances(r), real)
            else:
                r = w.dump(real, mobj)
                if check_verdict(r) == 'errors':
                    mon.count('dump')
                    attribute(r, mon, {}, real)
        check(not bad, 'a failure inside a callback is reported for another instance', errors=bad[:4], schema=repr(ss))
    texpr.release(None)
