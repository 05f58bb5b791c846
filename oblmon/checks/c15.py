"""C15: validator registries and field copies against an ordered-list model."""
import functools

import oblate
from oblate import fields as F, validate as VD

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, World, check_report, check_verdict, cmp_values

ID = 'C15'
QUICK, THOROUGH = 12000, 300000
RULE = ('random sequences of add/remove/clear/walk/copy/bind/load over families of fields and their copies, with functions, bound methods, partials, callable objects, decorated functions and '
        'Validator classes, before and after binding; after each step every field is walked and periodically loaded to see what runs; distinct by (operation, form, sizes, bound, copies)')
NEED = ['kind_copies', 'add', 'remove', 'remove_absent', 'clear', 'copy', 'copy_of_bound', 'copy_of_copy', 'walk', 'ran', 'duplicate', 'declared_raw', 'renamed_copy', 'ctor', 'list_again', 'wide', 'left_while_running', 'removed_in_walk']

LOG = []


class Host:
    def __init__(self, tag):
        self.tag = tag

    def check(self, schema, value, ctx):
        LOG.append(self.tag)


class CallMe:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, schema, value, ctx):
        LOG.append(self.tag)


class RawV(VD.Validator, raw=True):
    def __init__(self, tag):
        self.tag = tag

    def validate(self, value, ctx):
        LOG.append(self.tag)


class OrdV(VD.Validator):
    def __init__(self, tag):
        self.tag = tag

    def validate(self, value, ctx):
        LOG.append(self.tag)


def _p(tag, schema, value, ctx):
    LOG.append(tag)


class Val:
    """One validator with its model."""
    def __init__(self, tag, form):
        self.tag, self.form = tag, form
        self.declared = None
        if form == 'fn':
            def fn(schema, value, ctx):
                LOG.append(tag)
            self.get = lambda: fn
        elif form == 'method':
            h = Host(tag)
            self.get = lambda: h.check
        elif form == 'partial':
            p = functools.partial(_p, tag)
            self.get = lambda: p
        elif form == 'callable':
            c = CallMe(tag)
            self.get = lambda: c
        elif form in ('rawcls', 'ordcls'):
            c = (RawV if form == 'rawcls' else OrdV)(tag)
            self.declared = form == 'rawcls'
            self.get = lambda: c
        elif form in ('class', 'rawclass'):
            # calling a class runs its __new__
            class C:
                def __new__(cls, schema, value, ctx):
                    LOG.append(tag)
            if form == 'rawclass':
                self.declared = tag[-1] in '0135'
                C = VD.field('other', raw=self.declared)(C)
            self.get = lambda: C
        elif form == 'rawmark':
            # the decorator takes any callable
            self.declared = tag[-1] in '0135'
            p2 = VD.field('other', raw=self.declared)(functools.partial(_p, tag))
            self.get = lambda: p2
        else:
            def fn2(schema, value, ctx):
                LOG.append(tag)
            self.declared = form == 'decraw'
            d = VD.field('other', raw=self.declared)(fn2)
            self.get = lambda: d
        self.real = self.get()

    def raw(self, arg):
        return self.declared if self.declared is not None else bool(arg)

    def __repr__(self):
        return f'{self.tag}/{self.form}'


FORMS = ['fn', 'fn', 'method', 'partial', 'callable', 'rawcls', 'ordcls', 'decraw', 'decord', 'class', 'rawclass', 'rawmark']


class MF:
    def __init__(self, real, raws, ords, opts, origin):
        self.real, self.raws, self.ords, self.opts, self.origin = real, raws, ords, opts, origin
        self.cls = self.name = None


def identify(vals, x):
    for v in vals:
        if v.real is x or v.real == x:
            return v
    return x


def options(f):
    out = dict(type=type(f), none=f.none, required=f.required, frozen=f.frozen, default=f.default, has_default=f.has_default(), extras=dict(f.extras))
    for a in ('strict',):
        if hasattr(f, a):
            out[a] = getattr(f, a)
    return out


KINDS = [lambda kw: F.Any(**kw), lambda kw: F.Integer(strict=False, **kw), lambda kw: F.String(**kw)]


def kinds_case(rng, mon):
    """A copy of a field of any kind behaves like its source under another name and schema."""
    w = World(rng)
    ss = w.gen_schema(rng.choice([0, 1]), dict(p_keys=.3, p_inherit=.2, err_kinds=ERR_KINDS, validators=.6), nf=rng.choice([1, 2, 3, 4]))
    inst = None
    if rng.random() < .5:
        r = w.construct(ss, w.gen_data(ss, rng, 0))
        inst = (r.real, r.mobj) if r.ok else None
    new = w.copied_spec(ss, rng)
    if new is None:
        return
    for _ in range(3):
        r = w.construct(new, w.gen_data(new, rng, rng.choice([0, 0, 1, 2]), p_opt=.8))
        if check_verdict(r) == 'ok':
            cmp_values(r.real, r.mobj, 'schema of copied fields:', r=r)
            d = w.dump(r.real, r.mobj)
            if check_verdict(d) == 'ok':
                check(V.canon(d.real) == V.canon(d.mvalue), 'dump of copied fields differs', got=d.real, expected=d.mvalue, r=d)
        else:
            check_report(r)
        for ev in r.events:
            if ev.kind in ('raw', 'val'):
                check(type(ev.schema) is new.cls or type(ev.schema) is not ss.cls or any(f.sub is ss for f in new.own), 'validator of a copy got another schema', r=r)
        mon.count('kind_copies')
        mon.seen('kind', tuple(sorted({f.kind for f in new.own})), r.ok)
    # the source still works
    r = w.construct(ss, w.gen_data(ss, rng, rng.choice([0, 1]), p_opt=.8))
    if check_verdict(r) == 'ok':
        cmp_values(r.real, r.mobj, 'source of copied fields:', r=r)
    else:
        check_report(r)
    texpr.release(None)


def leaving(rng, mon):
    """Validators that unregister themselves, or one another, while the field's validators run or are walked."""
    ran = []

    def body(k, value):
        ran.append(k)
        for j in gone.get(k, ()):
            f.remove_validator(real[j], raw=raws[j])
        if value in fails[k]:
            raise rng.choice([ValueError, AssertionError, oblate.FieldError])(f'm{k}')

    def make(k):
        form = rng.choice(['fn', 'obj', 'partial', 'cls'])
        if form == 'fn':
            return lambda schema, value, ctx: body(k, value)
        if form == 'partial':
            return functools.partial(lambda k, schema, value, ctx: body(k, value), k)
        if form == 'cls':
            class C(VD.Validator, raw=raws[k]):
                def validate(self, value, ctx):
                    body(k, value)
            return C()

        class O:
            def __call__(self, schema, value, ctx):
                body(k, value)
        return O()
    n = rng.choice([2, 3, 5, 8, 12])
    p_raw = rng.choice([0, .3, 1])
    raws = [rng.random() < p_raw for _ in range(n)]
    fails = [rng.choice([(), (), (5,), (6,), (5, 6)]) for _ in range(n)]
    real = [make(k) for k in range(n)]
    p_self, p_other = rng.choice([.2, .5, 1]), rng.choice([0, 0, .2])
    gone = {k: ([k] if rng.random() < p_self else []) + ([rng.randrange(n)] if rng.random() < p_other else []) for k in range(n)}
    f = rng.choice(KINDS)(dict(validators=[v for v, r in zip(real, raws) if not r]))
    for v, r in zip(real, raws):
        if r:
            f.add_validator(v, raw=True)
    copied = f.copy() if rng.random() < .3 else None
    S = type(oblate.Schema)('S', (oblate.Schema,), {'__module__': 'm', 'x': f})
    left = list(range(n))
    info = dict(raws=raws, gone=gone, fails=fails)
    values = {F.Any: [0, 5, 6], F.Integer: [0, 5, 6], F.String: ['0', '5', '6']}[type(f)]
    if type(f) is F.String:
        fails = info['fails'] = [tuple(str(x) for x in y) for y in fails]
    s = None
    for _ in range(rng.choice([1, 2, 4])):
        if rng.random() < .25:
            kw = rng.choice([{}, {'raw': True}, {'raw': False}])
            want = [k for k in left if not raws[k]] * (kw.get('raw') is not True) + [k for k in left if raws[k]] * (kw.get('raw') is not False)
            drop = {k for k in left if rng.random() < .6}
            seen = []
            for v in f.walk_validators(**kw):
                k = real.index(v)
                seen.append(k)
                if k in drop:
                    f.remove_validator(v, raw=raws[k])
                    left.remove(k)
            check(seen == want, 'validators were skipped or repeated while those walked over were removed', got=seen, expected=want, removed=drop, filter=kw, **info)
            mon.count('removed_in_walk', len(drop & set(want)))
        how = rng.choice(['construct', 'update', 'assign']) if s is not None else 'construct'
        value = rng.choice(values)
        before = list(left)
        ran.clear()
        try:
            if how == 'construct':
                s = S({'x': value})
            elif how == 'update':
                s.update({'x': value})
            else:
                s.x = value
            got = []
        except oblate.ValidationError as e:
            got = e.raw()['x']
        # without its raw validators passing, a value is not loaded
        bad_raw = any(value in fails[k] for k in before if raws[k])
        dead = {j for k in ran for j in gone[k]}
        others = {j for k in ran for j in gone[k] if j != k}
        must = [k for k in before if (raws[k] or not bad_raw) and k not in others]
        check(len(set(ran)) == len(ran) and [k for k in ran if k in must and raws[k]] == [k for k in must if raws[k]] and [k for k in ran if k in must and not raws[k]] == [k for k in must if not raws[k]],
              f'a validator did not run once in {how} while others unregistered themselves', ran=list(ran), expected=must, value=value, **info)
        check(set(ran) <= set(before), 'a validator that was removed ran', ran=list(ran), registered=before, **info)
        check(sorted(got) == sorted(f'm{k}' for k in ran if value in fails[k]), 'the report lacks an error of a validator that ran, or has another', got=got, ran=list(ran), value=value, **info)
        left = [k for k in left if k not in dead]
        mon.count('left_while_running', len(dead & set(before)))
        mon.seen('leaving', how, len(before), len(dead), bool(others), bool(got))
        now = [real.index(v) for v in f.walk_validators()]
        check(now == [k for k in left if not raws[k]] + [k for k in left if raws[k]], 'the registered validators are not those left', got=now, expected=left, **info)
    if copied is not None:
        check([real.index(v) for v in copied.walk_validators()] == [k for k in range(n) if not raws[k]] + [k for k in range(n) if raws[k]], 'a copy lost validators', **info)


def case(rng, mon, i, tier):
    if i % 8 == 4:
        leaving(rng, mon)
    if i % 8 == 0:
        return kinds_case(rng, mon)
    wide = rng.random() < .1
    mon.count('wide', wide)
    vals = [Val(f't{k}', rng.choice(FORMS)) for k in range(rng.choice([10, 25]) if wide else rng.choice([2, 3, 5, 7]))]
    fields, trace = [], []
    lists = []              # sequences given to fields, with what they held

    def new():
        kw = {}
        if rng.random() < .4:
            kw['none'] = True
        if rng.random() < .3:
            kw['required'] = False
        if rng.random() < .2:
            kw['default'] = rng.choice([None, '5', 0])
        if rng.random() < .2:
            kw['frozen'] = True
        if rng.random() < .3:
            kw['extras'] = {'k': 1}
        lk = dk = None
        r = rng.random()
        if r < .2:
            kw['load_key'] = lk = 'LK'
        elif r < .3:
            kw['data_key'] = lk = dk = 'DATA'
        elif r < .4:
            kw['dump_key'] = dk = 'DK'
        init = []
        if rng.random() < .5:
            if lists and rng.random() < .4:
                # the same list again
                seq, content = rng.choice(lists)
                init = [identify(vals, x) for x in content]
                mon.count('list_again')
            else:
                init = [rng.choice(vals) for _ in range(rng.choice([0, 1, 2, 3]))]
                seq = [v.get() for v in init]
                lists.append((seq, list(seq)))
            kw['validators'] = rng.choice([seq, seq, tuple(seq)])
            mon.count('ctor')
        f = rng.choice(KINDS)(kw)
        if init and rng.random() < .3 and kw['validators'] is seq:
            seq.clear()
            lists[:] = [x for x in lists if x[0] is not seq]
        m = MF(f, [v for v in init if v.raw(False)], [v for v in init if not v.raw(False)], options(f), 0)
        m.lk, m.dk = lk, dk
        trace.append(f'f{len(fields)}=new({kw.keys()}, {init})')
        fields.append(m)
        return m

    def walk(m, k):
        info = dict(field=k, history=trace)
        got = [identify(vals, x) for x in m.real.walk_validators()]
        check(got == m.ords + m.raws, 'walk_validators() differs from the registered validators', got=got, expected=m.ords + m.raws, **info)
        got = [identify(vals, x) for x in m.real.walk_validators(raw=True)]
        check(got == m.raws, 'walk_validators(raw=True) differs', got=got, expected=m.raws, **info)
        got = [identify(vals, x) for x in m.real.walk_validators(raw=False)]
        check(got == m.ords, 'walk_validators(raw=False) differs', got=got, expected=m.ords, **info)
        mon.count('walk')
        check(options(m.real) == m.opts, 'options of a field changed', got=options(m.real), expected=m.opts, **info)

    def load(m, k):
        info = dict(field=k, history=trace)
        name = m.name
        lk = m.lk or name
        check(m.real.name == name and m.real.load_key == lk and m.real.dump_key == (m.dk or name) and m.real.schema is m.cls, 'a field has wrong names', name=m.real.name, load=m.real.load_key, **info)
        how = rng.choice(['construct', 'update', 'assign'])
        if m.opts['frozen']:
            how = 'construct'
        s = m.cls({lk: '7'}) if how != 'construct' else None
        LOG.clear()
        if how == 'construct':
            s = m.cls({lk: '7'})
        elif how == 'update':
            s.update({lk: '8'})
        else:
            setattr(s, name, '8')
        raws = [v.tag for v in m.raws]
        ords = [v.tag for v in m.ords]
        check(sorted(LOG) == sorted(raws + ords), f'the validators that ran in {how} are not the registered ones', ran=list(LOG), raws=raws, ords=ords, **info)
        # registration order within each kind (a validator may be registered under both)
        check(is_merge(LOG, raws, ords), f'validators ran out of registration order in {how}', ran=list(LOG), raws=raws, ords=ords, **info)
        check(list(s.dump()) == [m.dk or name], 'dump key of a field is wrong', got=list(s.dump()), **info)
        mon.count('ran')
        mon.seen('ran', how, len(raws), len(ords), m.origin)
    new()
    for step in range(rng.choice([30, 60]) if wide else rng.choice([4, 8, 14, 25])):
        op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'clear', 'copy', 'copy', 'new', 'bind', 'load'])
        k = rng.randrange(len(fields))
        if wide and rng.random() < .6:
            op, k = 'add', 0
        m = fields[k]
        if op == 'add':
            v, arg = rng.choice(vals), rng.random() < .4
            kw = {'raw': arg} if arg or rng.random() < .5 else {}
            m.real.add_validator(v.get(), **kw)
            lst = m.raws if v.raw(arg) else m.ords
            mon.count('add')
            mon.count('duplicate', v in lst)
            lst.append(v)
            mon.count('declared_raw', v.declared is not None)
            trace.append(f'f{k}.add({v}, {kw})')
            mon.seen('add', v.form, arg, m.cls is not None, m.origin)
        elif op == 'remove':
            v, arg = rng.choice(vals), rng.random() < .5
            if rng.random() < .6 and (m.raws or m.ords):
                v = rng.choice(m.raws + m.ords)
                arg = v in m.raws
            kw = {'raw': arg} if arg or rng.random() < .5 else {}
            m.real.remove_validator(v.get(), **kw)
            lst = m.raws if v.raw(arg) else m.ords
            if v in lst:
                lst.remove(v)
                mon.count('remove')
            else:
                mon.count('remove_absent')
            trace.append(f'f{k}.remove({v}, {kw})')
            mon.seen('remove', v.form, arg, len(lst))
        elif op == 'clear':
            if rng.random() < .5:
                continue
            arg = rng.choice([None, True, False])
            m.real.clear_validators(**({} if arg is None else {'raw': arg}))
            if arg is not False:
                m.raws.clear()
            if arg is not True:
                m.ords.clear()
            trace.append(f'f{k}.clear({arg})')
            mon.count('clear')
        elif op == 'copy' and len(fields) < 8:
            c = m.real.copy()
            check(c is not m.real and type(c) is type(m.real), 'copy() is not a new field of the same class', history=trace)
            n = MF(c, list(m.raws), list(m.ords), dict(m.opts), m.origin + 1)
            n.lk, n.dk = m.lk, m.dk
            fields.append(n)
            trace.append(f'f{len(fields) - 1}=f{k}.copy()')
            mon.count('copy')
            mon.count('copy_of_bound', m.cls is not None)
            mon.count('copy_of_copy', m.origin > 0)
        elif op == 'new' and len(fields) < 8:
            new()
        elif op == 'bind' and m.cls is None:
            m.name = rng.choice(['a', 'b', 'c', 'd'])
            ns = {'__module__': 'm', m.name: m.real}
            extra = None
            if rng.random() < .3:
                # two fields of the family in one schema are possible too
                extra = next((x for x in fields if x.cls is None and x is not m and (x.lk or 'e') != (m.lk or m.name)), None)
                if extra is not None and extra.opts['required']:
                    extra = None
                if extra is not None:
                    extra.name = 'e'
                    ns['e'] = extra.real
            if rng.random() < .5:
                dec_raw = rng.random() < .5
                v = Val(f'm{step}', 'fn')
                v.declared = dec_raw
                tag = v.tag

                def meth(self, value, ctx, tag=tag):
                    LOG.append(tag)
                ns['meth'] = d = VD.field(m.real if rng.random() < .5 else m.name, raw=dec_raw)(meth)
                v.get = lambda d=d: d
                v.real = d
                vals.append(v)
                (m.raws if dec_raw else m.ords).append(v)
            m.cls = type(oblate.Schema)('S', (oblate.Schema,), ns)
            if extra is not None:
                extra.cls = m.cls
            mon.count('renamed_copy', m.origin > 0)
            trace.append(f'bind f{k} as {m.name}')
        elif op == 'load' and m.cls is not None and not (m.lk is None and m.name is None):
            if not any(x.cls is m.cls and x is not m and x.opts['required'] for x in fields):
                extra = next((x for x in fields if x.cls is m.cls and x is not m), None)
                if extra is None or not extra.opts['has_default']:
                    load(m, k)
        for j, x in enumerate(fields):
            walk(x, j)
        for seq, content in lists:
            check(len(seq) == len(content) and all(a is b for a, b in zip(seq, content)), 'the sequence of validators given to a field changed', got=seq, expected=content, history=trace)
    for k, m in enumerate(fields):
        if m.cls is None:
            m.name = f'z{k}'
            m.cls = type(oblate.Schema)('Z', (oblate.Schema,), {'__module__': 'm', m.name: m.real})
        extra = [x for x in fields if x.cls is m.cls and x is not m]
        if not any(x.opts['required'] or x.opts['has_default'] for x in extra):
            load(m, k)
    mon.sample('; '.join(trace)[:600])


def is_merge(log, a, b):
    """log is an order-preserving merge of a and b."""
    cur = {(0, 0)}
    for x in log:
        cur = {p for i, j in cur for p in ([(i + 1, j)] if i < len(a) and a[i] == x else []) + ([(i, j + 1)] if j < len(b) and b[j] == x else [])}
        if not cur:
            return False
    return (len(a), len(b)) in cur
