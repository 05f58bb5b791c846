"""C13: the validator protocol, from the recorded event log of every operation."""
import collections

import oblate

from .. import noise, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, MObj, SENT, World, check_verdict, instances

ID = 'C13'
QUICK, THOROUGH = 6000, 130000
RULE = ('random nested schemas with 1-3 raw and ordinary validators per field registered in every way (constructor list, add_validator, decorator by field or name, '
        'Validator subclass, after class creation), constructions, updates, assignments with good and bad data; event log compared per (instance, field, kind) with the '
        'expected sequence; distinct by (operation, registration styles, outcome of the value)')
NEED = ['construct', 'update', 'assign', 'raw_calls', 'ord_calls', 'raw_on_none', 'ord_skipped', 'after_failure', 'read_others', 'nested_calls', 'shared_validator', 'self_writes', 'rejected_ops', 'converted']


def verify(r, mon, top, deep):
    w_events = r.events
    inst = instances(r)
    real_of = {}
    for fr in r.frames:
        x = inst.get(id(fr.mobj))
        check(x is not None, 'harness: instance of a frame not seen', r=r)
        real_of[id(fr.mobj)] = x
    got = collections.defaultdict(list)
    for n, ev in enumerate(w_events):
        if ev.kind in ('raw', 'val'):
            got[id(ev.schema), ev.spec.owner.fid, ev.kind].append((n, ev))
    want = {}
    for fr in r.frames:
        x = real_of[id(fr.mobj)]
        for mf in fr.mfs:
            if mf.rawv:
                want[id(x), mf.f.fid, 'raw'] = (fr, mf, mf.rawv, x)
            if mf.ordv:
                want[id(x), mf.f.fid, 'val'] = (fr, mf, mf.ordv, x)
            mon.count('raw_on_none', mf.raw is None and bool(mf.rawv))
            mon.count('ord_skipped', bool(mf.f.ords()) and not mf.ordv)
    for k in got:
        check(k in want, f'{r.op}: validators ran that must not run', ran=[e.spec for _, e in got[k]], field=got[k][0][1].spec.owner.name, value=repr(got[k][0][1].value), r=r)
    loads = {}
    for n, ev in enumerate(w_events):
        if ev.kind == 'load':
            loads[id(ev.schema), ev.spec.fid] = (n, ev)
    for k, (fr, mf, specs, x) in want.items():
        evs = got.get(k, [])
        info = dict(field=mf.f.name, kind=k[2], expected=[s.id for s in specs], ran=[e.spec.id for _, e in evs], value=repr(mf.raw), r=r)
        check([e.spec.id for _, e in evs] == [s.id for s in specs], f'{r.op}: validators did not run exactly once each in registration order', **info)
        for j, (n, e) in enumerate(evs):
            if k[2] == 'raw':
                check(e.value is mf.raw, f'{r.op}: a raw validator did not get the value as given', got=repr(e.value), **info)
                mon.count('raw_calls')
            else:
                if isinstance(mf.final, MObj):
                    check(isinstance(e.value, oblate.Schema) and V.canon(e.value) == V.canon(mf.final), f'{r.op}: a validator did not get the deserialized value', got=repr(e.value), **info)
                else:
                    check(V.same(e.value, mf.final), f'{r.op}: a validator did not get the deserialized value', got=repr(e.value), **info)
                mon.count('ord_calls')
            check(e.schema is x, f'{r.op}: a validator got another schema', **info)
            c = e.ctx
            check(isinstance(c, oblate.LoadContext) and c.schema is x and c.field is getattr(type(x), mf.f.name) and (c.value is mf.raw),
                  f'{r.op}: a validator got another context', ctx=(type(c).__name__, repr(c.value)), **info)
            ld = loads.get((id(x), mf.f.fid))
            if ld is not None:
                check(c is ld[1].ctx, f'{r.op}: loader and validator of one value got different contexts', **info)
            check(c is evs[0][1].ctx, f'{r.op}: validators of one value got different contexts', **info)
            mon.count('after_failure', j > 0 and evs[j - 1][1].spec.fails(evs[j - 1][1].value))
        a, b = got.get((k[0], k[1], 'raw')), got.get((k[0], k[1], 'val'))
        if a and b:
            check(a[0][1].ctx is b[0][1].ctx, f'{r.op}: raw and ordinary validators got different contexts', **info)
        mon.count('nested_calls', x is not top)
        mon.seen(r.op.split()[0], tuple(s.style for s in specs), k[2], mf.raw is None, mf.loaded, tuple(s.fails(mf.raw if k[2] == 'raw' else mf.final) for s in specs), x is top)
    # stages of construction
    for fr in r.frames:
        if fr.op != 'init':
            continue
        x = real_of[id(fr.mobj)]
        vals = [n for n, ev in enumerate(w_events) if ev.kind in ('raw', 'val') and ev.schema is x]
        if not vals:
            continue
        early = [n for n, ev in enumerate(w_events) if ev.kind in ('load', 'default') and ev.schema is x]
        check(not early or max(early) < min(vals), 'a validator ran before all fields were deserialized and defaults applied', r=r)
        need = {mf.f.name: mf.final for mf in fr.mfs if mf.loaded}
        dflt = {f.name: f.default[1] for f in fr.ss.all_fields() if f.default is not None and f.lk not in fr.data}
        need.update(dflt)
        for n in vals:
            ev = w_events[n]
            for name, v in need.items():
                if name != ev.spec.owner.name:
                    mon.count('read_others')
                    got_v = ev.extra.get(name, SENT)
                    check(got_v is not SENT and V.canon(got_v) == V.canon(v), 'a validator cannot read a valid field of the schema being constructed', validator=ev.spec, field=name,
                          expected=repr(v), got=repr(got_v), r=r)


def shared(rng, mon):
    """One validator object on several fields and schemas."""
    log = []

    raw = rng.random() < .5

    class Val(oblate.validate.Validator, raw=raw):
        def validate(self, value, ctx):
            log.append((self, ctx.schema, ctx.field, value, ctx.value))
            if value == 'bad':
                raise ValueError('bad')
    v = Val()
    fns = [v]
    if rng.random() < .5:
        def fn(schema, value, ctx):
            log.append((fn, schema, ctx.field, value, ctx.value))
        fns.append(fn)
    if rng.random() < .4:
        # registered repeatedly
        fns = rng.choices(fns, k=rng.choice([2, 3, 5, 9]))
    F = oblate.fields
    A = type(oblate.Schema)('A', (oblate.Schema,), {'x': F.Any(validators=fns), 'y': F.Any(validators=fns[::-1], required=False, none=True), 'z': F.Any(required=False), '__module__': 'm'})
    B = type(oblate.Schema)('B', (oblate.Schema,), {'x': F.Any(validators=fns, load_key='X'), 'a': F.Object(A), '__module__': 'm'})
    data = {'X': rng.choice(['q', 'bad', None, 1]), 'a': {'x': rng.choice(['bad', 2]), 'y': rng.choice(['k', None, 'bad']), 'z': 'bad'}}
    items = list(data.items())
    rng.shuffle(items)
    try:
        B(dict(items))
    except oblate.ValidationError:
        pass
    want = collections.Counter()
    for fld, value in ((B.x, data['X']), (A.x, data['a']['x']), (A.y, data['a']['y'])):
        for f in fns:
            if value is not None or (f is v and raw):
                want[id(f), id(fld), repr(value)] += 1
    got = collections.Counter((id(f), id(fld), repr(value)) for f, s, fld, value, cv in log)
    check(want == got, 'validators shared by several fields did not run once for each of their values', data=data, raw=raw, ran=[(type(s).__name__, repr(val)) for f, s, fl, val, c in log])
    mon.count('shared_validator')


def self_writes(rng, mon):
    """User code that gives fields of the schema being processed further values."""
    F, VD = oblate.fields, oblate.validate
    names = ['a', 'b', 'c', 'd'][:rng.choice([2, 3, 4])]
    log = []
    writer, target = rng.sample(names, 2)
    stage = rng.choice(['loader', 'loader', 'ord', 'raw', 'default'])
    how = rng.choice(['update', 'assign'])
    busy = [0]

    def write(schema):
        if busy[0]:
            return
        busy[0] = 1
        if how == 'update':
            schema.update({target.upper(): 'written'})
        else:
            setattr(schema, target, 'written')

    def make(name):
        class Loader(F.Any):
            def value_load(self, value, ctx):
                if name == writer and stage == 'loader':
                    write(ctx.schema)
                return ('L', value)
        kw = {}
        if name == writer and stage == 'default':
            def default(ctx, field):
                write(ctx.schema)
                return 'dflt'
            kw['default'] = default
        f = Loader(required=False, load_key=name.upper(), **kw)
        for raw in (False, True):
            for k in range(rng.choice([1, 1, 2])):
                def val(schema, value, ctx, raw=raw, k=k):
                    log.append((name, raw, k, value, ctx.value, ctx.field is getattr(type(schema), name)))
                    if name == writer and stage == ('raw' if raw else 'ord') and k == 0:
                        write(schema)
                f.add_validator(val, raw=raw)
        return f
    S = type(oblate.Schema)('S', (oblate.Schema,), {**{n: make(n) for n in names}, '__module__': 'm'})
    data = {n.upper(): f'given {n}' for n in rng.sample(names, len(names))}
    op = rng.choice(['construct', 'construct', 'update', 'assign']) if stage != 'default' else 'construct'
    if stage == 'default':
        del data[writer.upper()]
    info = dict(data=data, writer=writer, target=target, stage=stage, how=how, op=op)
    if op == 'construct':
        s = S(data)
    else:
        s = S({})
        if op == 'assign':
            data = {writer.upper(): data[writer.upper()]}
            setattr(s, writer, data[writer.upper()])
        else:
            s.update(data)
    check(busy[0], 'harness: nothing was written', **info)
    want = collections.Counter()
    for n in names:
        given = [data[n.upper()]] if n.upper() in data else []
        for v in given + ['written'] * (n == target):
            for raw in (True, False):
                for fn in S.__dict__[n].walk_validators(raw=raw):
                    want[n, raw, fn.__defaults__[1], v if raw else ('L', v), v, True] += 1
    got = collections.Counter(log)
    check(got == want, 'validators did not run exactly once with each value loaded', missing=list((want - got).elements()), extra=list((got - want).elements()), **info)
    if stage in ('ord', 'raw', 'default') and op == 'construct' or target.upper() not in data:
        check(getattr(s, target) == ('L', 'written'), 'a value given by user code during the operation was lost', got=repr(getattr(s, target, None)), **info)
    mon.count('self_writes')
    mon.seen('self_writes', stage, how, op, list(data).index(target.upper()) if target.upper() in data else None, len(names))


def converted(rng, mon):
    """Loaders that give None and other false values, for fields with every option: ordinary validators get what they give."""
    log = []
    out = rng.choice([None, None, 0, '', [], False, V.Tagged(1)])

    class Fld(oblate.fields.Any):
        def value_load(self, value, ctx):
            return out
    opts = rng.choice([{}, {'none': True}, {'default': None}, {'default': None, 'none': True}, {'default': out}, {'required': False}, {'required': False, 'none': True}, {'default': 'd', 'none': True, 'load_key': 'X'}])
    f = Fld(**opts)
    f.add_validator(lambda s, v, c: log.append(('val', v, c.value)))
    f.add_validator(lambda s, v, c: log.append(('raw', v, c.value)), raw=True)
    A = type(oblate.Schema)('A', (oblate.Schema,), {'x': f, 'y': oblate.fields.Any(required=False), '__module__': 'm'})
    given = rng.choice([1, 'v', 0, '', [], out if out is not None else 2])
    for how in ('construct', 'update', 'assign'):
        inst = A({A.x.load_key: 'first'}) if how != 'construct' else None
        log.clear()
        if how == 'construct':
            inst = A({A.x.load_key: given})
        elif how == 'update':
            inst.update({A.x.load_key: given})
        else:
            inst.x = given
        check(sorted(k for k, *_ in log) == ['raw', 'val'], 'validators did not run exactly once each', ran=log, how=how, options=opts, given=given, loaded=out)
        for k, v, raw in log:
            check(raw is given and v is (given if k == 'raw' else out), 'a validator got another value', ran=log, how=how, options=opts, given=given, loaded=out)
        check(inst.x is out, 'the deserialized value was not stored', how=how, options=opts)
        mon.count('converted')
    mon.seen('converted', repr(out), tuple(sorted(opts)))


def case(rng, mon, i, tier):
    if i % 6 == 1:
        converted(rng, mon)
    if i % 10 == 0:
        shared(rng, mon)
    if i % 6 == 0:
        self_writes(rng, mon)
    w = World(rng)
    w.twins = False
    w.snap_reads = True
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 3, 8], p_object=.35, validators=.85, vrate=rng.choice([0, 2, 5, 9]), p_instr=.9, p_fmt=.2, p_frozen=.05, p_inherit=.3)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    if rng.random() < .4:
        noise.install(w, rng, .3)
    good = None
    for _ in range(rng.choice([1, 2, 3])):
        r = w.construct(ss, w.gen_data(ss, rng, rng.choice([0, 0, 1, 2, 4]), p_opt=rng.choice([.3, .7, 1])))
        check_verdict(r)
        mon.count('construct')
        mon.count('rejected_ops', not r.ok)
        verify(r, mon, instances(r).get(id(r.frame.mobj)), True)
        if r.ok:
            good = r
    if good is not None:
        real, mobj = good.real, good.mobj
        for _ in range(rng.choice([2, 3, 5])):
            if rng.random() < .5:
                d = w.gen_data(ss, rng, rng.choice([0, 1, 2]), p_opt=.6)
                r = w.update(real, mobj, d)
                v = check_verdict(r)
                if v == 'frozen':
                    continue
                mon.count('update')
            else:
                f = rng.choice(ss.all_fields())
                r = w.assign(real, mobj, f, w.ok_value(f, rng)[0] if rng.random() < .5 else w.bad_value(f, rng))
                v = check_verdict(r)
                if v == 'frozen':
                    check(not r.events, 'user code ran for a frozen assignment', r=r)
                    continue
                mon.count('assign')
            mon.count('rejected_ops', not r.ok)
            verify(r, mon, real, True)
        mon.sample(f'{ss!r}: {[repr(e) for e in good.events][:20]}')
    texpr.release(None)
