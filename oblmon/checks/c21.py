"""C21: reference renderer over generated messages, against raw(), str() and the error list."""
import collections
import re

import oblate
from oblate import fields as F, validate as VD

from .. import noise, values as V
from ..core import check

ID = 'C21'
QUICK, THOROUGH = 6000, 150000
RULE = ('random schema trees (chains up to 40 levels, wide reports up to 300 errors, renamed and non-string keys) whose loaders, validators, dumpers and formatters raise messages of every shape: strings, numbers, '
        'arbitrary printable objects, lists, tuples, sets, mappings and errors of other operations, nested to depth 4; in construction, update, assignment and dump; rendered at once, repeatedly, after mutating an '
        'earlier result, after later operations; distinct by (operation, message shapes, depth, width)')
NEED = ['raw', 'str', 'construct', 'update', 'assign', 'dump', 'nested', 'deep', 'wide', 'list_message', 'mapping_message', 'object_message', 'foreign_errors', 'many_of_one_key', 'mutated_result', 'later', 'custom_raw', 'odd_keys',
        'formatted', 'renamed', 'repeated']
_ids = iter(range(10 ** 9))


class Obj:
    """Printable in its own way."""
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return f'Obj<{self.s}>'


class ReprOnly:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f'ReprOnly({self.s})'


class DSub(dict):
    pass


class LSub(list):
    pass


class TSub(tuple):
    __slots__ = ()


def leaf(rng):
    n = next(_ids)
    return rng.choice([lambda: f'm{n}', lambda: f'm{n}', lambda: f'message {n} é😀', lambda: n, lambda: None, lambda: True, lambda: 1.5, lambda: Obj(f'obj{n}'), lambda: ReprOnly(f'ro{n}'),
                       lambda: b'bytes', lambda: '', lambda: f'%s {{x}} {n}', lambda: V.StrSub(f'sub{n}'), lambda: V.Colour.RED, lambda: V.Shape.DOT, lambda: ValueError(f'exc{n}'), lambda: int,
                       lambda: f'two\nlines {n}', lambda: f'end{n}  ', lambda: f'  start{n}', lambda: f'tail{n}\t\n ', lambda: Obj(f' obj{n} '), lambda: f'wide{n}' + 'w' * 3000, lambda: frozenset([n]), lambda: V.Tagged(n), lambda: '│ └── x', lambda: 10 ** 30, lambda: ('tup', n), lambda: V.named_tuple(2)(n, f'nt{n}'), lambda: TSub([n, 'ts'])])()


class Shapes:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def hleaf(self):
        while True:
            x = leaf(self.rng)
            try:
                hash(x)
                return x
            except TypeError:
                continue

    def msg(self, depth, inner=False):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .4:
            return leaf(rng)
        n = rng.choice([1, 1, 2, 3] if not inner else [0, 1, 2, 3])
        if r < .55:
            self.used.add('list')
            return rng.choice([list, list, LSub])(self.msg(depth - 1, True) for _ in range(n))
        if r < .62:
            return rng.choice([tuple, tuple, TSub, lambda x: V.named_tuple(n)(*x)])(self.msg(depth - 1, True) for _ in range(n))
        if r < .67:
            return {self.hleaf() for _ in range(n)}
        if r < .9:
            self.used.add('mapping')
            keys = rng.sample(['a', 'b', 'errors', 0, None, ('t', 1), 'x y', '', 1.5, True], rng.choice([0, 1, 1, 2, 3]))
            return rng.choice([dict, dict, DSub])((k, self.msg(depth - 1, True)) for k in keys)
        self.used.add('foreign')
        es = foreign(rng)
        if r < .94:
            return list(es)
        if r < .97:
            return {'why': list(es)}
        return {'why': es[0], 'and': [es[-1], 'txt']}


class Other(oblate.Schema):
    n = F.Integer(load_key='N')
    s = F.Any(required=False)

    @VD.field(s)
    def chk(self, value, ctx):
        raise oblate.FieldError(value)


def foreign(rng):
    """Errors of another operation, finished before."""
    n = next(_ids)
    try:
        Other(rng.choice([{'N': 'x', 's': [f'f{n}', f'g{n}']}, {'s': f'h{n}', 'N': 'x'}, {'N': 1, 's': {f'k{n}': [f'z{n}']}}]))
    except oblate.ValidationError as e:
        return e.errors
    raise AssertionError


def render(m):
    if isinstance(m, oblate.FieldError):
        return render(m.message)
    if isinstance(m, dict):
        return {k: render(x) for k, x in m.items()}
    if isinstance(m, list):
        return [render(x) for x in m]
    return str(m)


def split(m):
    return list(m) if isinstance(m, (list, tuple, set)) else [m]


def leaves(m):
    """(alternatives of the text) that str() has to mention."""
    if isinstance(m, oblate.FieldError):
        yield from leaves(m.message)
    elif isinstance(m, dict):
        for x in m.values():
            yield from leaves(x)
    elif isinstance(m, (list, tuple, set, frozenset)):
        for x in m:
            yield from leaves(x)
    else:
        yield str(m), repr(m)


class Bad:
    """A value that makes the field fail with the given exceptions."""
    def __init__(self, load=None, val=(), raw=()):
        self.load, self.val, self.raw = load, val, raw


class DumpBad:
    def __init__(self, exc):
        self.exc = exc


class Leaf(F.Any):
    def value_load(self, value, ctx):
        if isinstance(value, Bad) and value.load is not None:
            raise value.load()
        return value

    def value_dump(self, value, ctx):
        if isinstance(value, DumpBad):
            raise value.exc()
        return value


FMT = {}


class FmtInt(F.Integer):
    def format_error(self, code, ctx):
        v = ctx.get_value()
        return FMT[v]() if v in FMT else None


def val_first(schema, value, ctx):
    if isinstance(value, Bad) and value.val:
        raise value.val[0]()


def val_second(schema, value, ctx):
    if isinstance(value, Bad) and len(value.val) > 1:
        raise value.val[1]()


def val_raw(schema, value, ctx):
    if isinstance(value, Bad) and value.raw:
        raise value.raw[0]()


class CustomRaw(oblate.ValidationError):
    def raw(self):
        return {'n': len(self.errors), 'std': super().raw()}


class Gen:
    def __init__(self, rng, mon):
        self.rng, self.mon, self.sh = rng, mon, Shapes(rng)
        self.msgs = []

    def raiser(self):
        """(raise function, [expected messages])."""
        rng = self.rng
        m = self.sh.msg(rng.choice([0, 1, 1, 2, 3, 4]))
        if rng.random() < .06:
            # many failures of one key
            m = [self.sh.msg(rng.choice([0, 1, 2])) for _ in range(rng.choice([9, 17, 33, 33, 150]))]
            self.mon.count('many_of_one_key')
        self.msgs.append((m, kc(m)))
        k = rng.random()
        if k < .15:
            e = rng.choice([ValueError, AssertionError])
            t = str(e(m))
            return (lambda: e(m)), ([t] if t else [Ellipsis])
        return (lambda: oblate.FieldError(m)), split(m)

    def build(self, depth, width):
        """A class with leaves and, above depth 0, one nested schema."""
        rng = self.rng
        self.mon.count('deep', depth >= 12)
        names = rng.sample(['a', 'b', 'c', 'name', 'value', 'x1', 'items'], rng.choice([1, 2, 3]) if depth < 4 else 1)
        ns = {'__module__': 'oblmon.generated'}
        fs = []
        pool = rng.sample(['A', 'key', 'some key', 'Ü', '', '0', 'from', 'name', 'a'], 5)
        swap = dict(zip(names[:2], names[1::-1])) if len(names) > 1 and rng.random() < .2 else {}
        for j, n in enumerate(names + [f'w{j}' for j in range(width)]):
            lk = swap[n] if n in swap else pool.pop() if rng.random() < .4 and pool and not any(pool[-1] in (x, y) for x, y, _ in fs) and pool[-1] not in names else n
            cls = FmtInt if rng.random() < .2 and j < 3 else Leaf
            f = cls(required=False, load_key=lk)
            if cls is Leaf:
                f.add_validator(val_first)
                f.add_validator(val_second)
                f.add_validator(val_raw, raw=True)
            ns[n] = f
            fs.append((n, lk, f))
            self.mon.count('renamed', n != lk)
        sub = None
        if depth > 0:
            sub = self.build(depth - 1, 0)
            ns['nest'] = F.Object(sub[0], required=False, load_key=rng.choice(['nest', 'Nest', 'n e']))
        name = rng.choice(['S', 'Sçhema', 'User'])
        cls = type(oblate.Schema)(f'{name}{next(_ids)}', (oblate.Schema,), ns)
        return cls, fs, sub, ns['nest'].load_key if sub else None

    def failing(self, node, p, unknown=True):
        """(data, expected {key: [messages]}, names) for loading; nested messages as ('nested', expected)."""
        rng = self.rng
        cls, fs, sub, nk = node
        d, exp = {}, {}
        for n, lk, f in fs:
            if rng.random() >= p:
                continue
            if isinstance(f, FmtInt):
                v = f'bad{next(_ids)}'
                msg = self.sh.msg(rng.choice([0, 1, 2, 3]))
                self.msgs.append((msg, kc(msg)))
                ms = split(msg)
                m = rng.choice(['txt', 'fe'])
                if m == 'txt':
                    FMT[v] = lambda t=v: f'fmt {t}'
                    ms = [f'fmt {v}']
                else:
                    FMT[v] = lambda m=msg: oblate.FieldError(m)
                self.mon.count('formatted')
                d[lk], exp[lk] = v, ms
                continue
            q = rng.random()
            if q < .3:
                fn, ms = self.raiser()
                rr = [self.raiser()] if rng.random() < .3 else []
                d[lk] = Bad(load=fn, raw=[x for x, _ in rr])
                exp[lk] = ms + [m for _, y in rr for m in y]
            else:
                vs = [self.raiser() for _ in range(rng.choice([1, 1, 2]))]
                rr = [self.raiser()] if rng.random() < .3 else []
                d[lk] = Bad(val=[x for x, _ in vs], raw=[x for x, _ in rr])
                exp[lk] = [m for _, y in vs + rr for m in y]
        if unknown and rng.random() < .3:
            k = rng.choice(['zz', 5, None, ('t',), 2.5, b'k', True, V.Shape.DOT, 'un known', V.Tagged(3)])
            d[k] = 1
            exp[k] = [Ellipsis]
            self.mon.count('odd_keys', not isinstance(k, str))
        if sub is not None:
            sd, se = self.failing(sub, p, unknown)
            d[nk] = sd
            if se:
                exp[nk] = [('nested', sub, se)]
                self.mon.count('nested')
        items = list(d.items())
        rng.shuffle(items)
        return dict(items), exp

    def dumping(self, node, p):
        """(good data whose dump fails, expected) ."""
        rng = self.rng
        cls, fs, sub, nk = node
        d, exp = {}, {}
        for n, lk, f in fs:
            if isinstance(f, FmtInt):
                d[lk] = 5
            elif rng.random() < p:
                fn, ms = self.raiser()
                d[lk], exp[lk] = DumpBad(fn), ms
            else:
                d[lk] = 'fine'
        if sub is not None:
            sd, se = self.dumping(sub, p)
            d[nk] = sd
            if se:
                exp[nk] = [('nested', sub, se)]
                self.mon.count('nested')
        return d, exp


def kc(x):
    return repr(V.canon(x))


def cmp_raw(raw, exp, path=''):
    check(type(raw) is dict, f'{path}: a report is not a dictionary', raw=raw)
    R, E = {kc(k): v for k, v in raw.items()}, {kc(k): v for k, v in exp.items() if v}
    check(set(R) == set(E), f'{path}: other keys than the failing ones', got=sorted(R), expected=sorted(E))
    for k, ms in E.items():
        got = R[k]
        check(type(got) is list and got, f'{path}/{k}: not a list of messages', got=got)
        got = list(got)
        check(len(got) == len(ms), f'{path}/{k}: {len(got)} messages instead of {len(ms)}', got=got, expected=ms)
        for m in sorted(ms, key=lambda m: 0 if m is not Ellipsis else 1):
            if isinstance(m, tuple) and len(m) == 3 and m[0] == 'nested':
                check(isinstance(got[0], dict), f'{path}/{k}: a nested failure is not a mapping', got=got)
                cmp_raw(got.pop(0), m[2], f'{path}/{k}')
                continue
            if m is Ellipsis:
                hit = next((g for g in got if isinstance(g, str) and g), None)
                check(hit is not None, f'{path}/{k}: no message of the library', got=got)
                got.remove(hit)
                continue
            want = kc(render(m))
            j = next((j for j, g in enumerate(got) if kc(g) == want), None)
            check(j is not None, f'{path}/{k}: a message is missing or rendered in another way', message=m, expected=render(m), got=got)
            del got[j]


def plain(x, path='raw()'):
    check(type(x) in (dict, list, str), f'{path} holds a {type(x).__name__}', value=x)
    for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()):
        plain(y, path)


def cmp_str(text, node, exp):
    pairs = collections.Counter()
    cmp_level(text, node, exp, pairs)
    lines = text.split('\n')
    for (k, name), n in pairs.items():
        rx = re.compile(rf'(?<!\w){name}(?!\w)')
        hits = sum(k in line and rx.search(line.replace(k, '', 1)) is not None for line in lines)
        check(hits >= n, 'str() does not mention a failing key together with the name of its field as often as it failed', key=k, name=name, hits=hits, failures=n, text=text)


def cmp_level(text, node, exp, pairs):
    cls, fs, sub, nk = node
    byk = {lk: n for n, lk, f in fs}
    if nk is not None:
        byk[nk] = 'nest'
    for k, ms in exp.items():
        if not ms:
            continue
        check(str(k) in text, 'str() does not mention a failing key', key=k, text=text)
        if k in byk and k != byk[k]:
            pairs[str(k), byk[k]] += 1
        for m in ms:
            if m is Ellipsis:
                continue
            if isinstance(m, tuple) and len(m) == 3 and m[0] == 'nested':
                cmp_level(text, m[1], m[2], pairs)
                continue
            if isinstance(m, dict):
                for key in m:
                    check(str(key) in text or repr(key) in text, 'str() does not mention a key of a message', key=key, text=text)
            for s, r in leaves(m):
                check(s in text or r in text or '\n' in s and all(l.lstrip() in text for l in s.split('\n')), 'str() does not mention a message', message=m, part=s, text=text)


def wreck(x):
    """Mutate a rendered structure everywhere."""
    if isinstance(x, dict):
        for y in list(x.values()):
            wreck(y)
        x['wrecked'] = 1
        if len(x) > 1:
            x.pop(next(iter(x)))
    elif isinstance(x, list):
        for y in x:
            wreck(y)
        x.append('wrecked')


def case(rng, mon, i, tier):
    FMT.clear()
    g = Gen(rng, mon)
    depth = rng.choice([0, 0, 1, 1, 2, 3]) if i % 25 else rng.choice([12, 25, 40])
    width = rng.choice([60, 150, 300]) if i % 40 == 7 else 0
    node = g.build(depth, width)
    cls = node[0]
    op = rng.choice(['construct', 'construct', 'update', 'assign', 'dump'])
    p = 1 if width else rng.choice([.4, .7, 1])
    saved = oblate.config.validation_error_cls
    custom = rng.random() < .15
    try:
        if custom:
            oblate.config.validation_error_cls = CustomRaw
            mon.count('custom_raw')
        schema = None
        if op == 'dump':
            d, exp = g.dumping(node, p)
            schema = cls(d)
            fn = schema.dump
        else:
            d, exp = g.failing(node, p)
            if op == 'construct':
                fn = lambda: cls(d)
            elif op == 'update':
                schema = cls({})
                fn = lambda: schema.update(d)
            else:
                ks = [k for k in exp if k in {lk for _, lk, _ in node[1]} or node[3] is not None and k == node[3]]
                if not ks:
                    op, fn = 'construct', lambda: cls(d)
                else:
                    k = rng.choice(ks)
                    name = next((n for n, lk, _ in node[1] if lk == k), 'nest')
                    exp = {k: exp[k]}
                    schema = cls({})
                    fn = lambda: setattr(schema, name, d[k])
        live = {k: v for k, v in exp.items() if v}
        if not live:
            return
        err = None
        try:
            fn()
        except oblate.ValidationError as e:
            err = e
        except Exception as e:
            check(False, f'building the error failed with {type(e).__name__}: {e!r:.300}', op=op, data=d, expected=exp)
        check(err is not None, 'no ValidationError', op=op, data=d, expected=exp)
    finally:
        oblate.config.validation_error_cls = saved
    info = dict(op=op, expected=exp)

    def rendered(f, what):
        try:
            return f()
        except Exception as e:
            check(False, f'{what} failed with {type(e).__name__}: {e!r:.300}', **info)
    raw = rendered(err.raw, 'raw()')
    if custom:
        check(set(raw) == {'n', 'std'}, 'an overridden raw() is not what the error gives', raw=raw)
        raw = raw['std']
    plain(raw)
    cmp_raw(raw, live)
    text = rendered(lambda: str(err), 'str()')
    check(cls.__name__ in text, "str() does not mention the schema's name", text=text, name=cls.__name__)
    cmp_str(text, node, live)
    mon.count('raw')
    mon.count('str')
    # the flat list of errors has one entry per message, each printable
    n = sum(len(ms) for ms in live.values())
    check(len(err.errors) == n, 'the error list has another length than the number of messages', n=n, got=err.errors, **info)
    byk = collections.Counter(kc(e.key) for e in err.errors)
    check(byk == collections.Counter({kc(k): len(ms) for k, ms in live.items()}), 'other keys in the error list', got=byk, **info)
    for e in err.errors:
        if not isinstance(e.message, (dict, list)) and e.message is not None:
            check(str(e) == str(e.message), 'str() of a single error is not its message', got=str(e), message=e.message)
    # rendering again: equal, new structures, whatever happened to earlier results or ran in between
    if rng.random() < .5:
        wreck(raw)
        mon.count('mutated_result')
    if rng.random() < .5:
        for _ in range(2):
            noise.run(rng.randrange(len(noise.OPS)))
        if schema is not None and rng.random() < .5:
            try:
                schema.update({'zz': 1})
            except oblate.OblateException:
                pass
        mon.count('later')
    again = rendered(err.raw, 'raw()')
    cmp_raw(again['std'] if custom else again, live)
    check(rendered(lambda: str(err), 'str()') == text, 'str() changes with time', before=text, after=str(err))
    # the messages belong to the user code that raised them: the same failure later is reported the same
    for m, before in g.msgs:
        check(kc(m) == before, 'a message object of user code was changed', before=before, after=m, **info)
    if rng.random() < .3:
        err = None
        try:
            fn()
        except oblate.ValidationError as e:
            err = e
        check(err is not None, 'the same operation no longer fails', **info)
        cmp_raw(rendered(err.raw, 'raw()'), live)
        mon.count('repeated')
    mon.count(op)
    mon.count('wide', width > 0)
    mon.count('list_message', 'list' in g.sh.used)
    mon.count('mapping_message', 'mapping' in g.sh.used)
    mon.count('foreign_errors', 'foreign' in g.sh.used)
    mon.count('object_message', any(isinstance(m, (Obj, ReprOnly)) for ms in live.values() for m in ms))
    mon.seen(op, depth, len(live), tuple(sorted(g.sh.used)), tuple(sorted(len(ms) for ms in live.values())), tuple(sorted({type(m).__name__ for ms in live.values() for m in ms})))
    mon.sample(f'{op} depth {depth}: {again!r}')
