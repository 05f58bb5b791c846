"""Schemas and data of unusual size: long chains of nested schemas, hundreds of fields, keys, failures and validators, with a model of their own."""
import oblate
from oblate import fields as F

from .core import check

META = type(oblate.Schema)


class Fd:
    """One field: its names, and the nested node for an object field."""
    def __init__(self, name, lk, dk, sub=None, req=False, many=0, default=None):
        self.name, self.lk, self.dk, self.sub, self.req, self.many, self.default = name, lk, dk, sub, req, many, default


class Dumper(F.Integer):
    def value_dump(self, value, ctx):
        if value % 7 == 3:
            raise ValueError(f'dump {value}')
        return value


class Node:
    def __init__(self, rng, width, sub=None, same_keys=False, level=0, dumpers=False):
        self.fields = []
        ns = {'__module__': 'scale'}
        if sub is not None:
            self._add(ns, rng, 'node', same_keys, sub)
        for i in range(width):
            self._add(ns, rng, f'f{i}', same_keys, None, dumpers)
        self.cls = META(f'L{level}', (oblate.Schema,), ns)
        self.by = {f.lk: f for f in self.fields}

    def _add(self, ns, rng, name, same_keys, sub, dumpers=False):
        f = Fd(name, name, name, sub)
        kw = {}
        q = rng.random()
        if q < .2 and same_keys:
            f.lk = f.dk = kw['data_key'] = f'{name}-k'
        elif q < .4 and not same_keys:
            f.lk = kw['load_key'] = f'{name}-l'
        elif q < .5 and not same_keys:
            f.dk = kw['dump_key'] = f'{name}-d'
        q = rng.random()
        if sub is None and q < .15:
            f.default = kw['default'] = rng.randrange(50) * 7
        elif q < .5:
            kw['required'] = False
        else:
            f.req = True
        if sub is None:
            f.many = rng.choice([0, 1, 1, 1, 3]) if rng.random() < .97 else rng.randrange(20, 80)

            def neg(k):
                def v(schema, value, ctx):
                    if value < 0:
                        raise ValueError(f'neg{k} {value};')
                return v
            ns[name] = (Dumper if dumpers else F.Integer)(validators=[neg(k) for k in range(f.many)], **kw)
        else:
            ns[name] = F.Object(sub.cls, **kw)
        self.fields.append(f)


def node(rng, depth, width, **kw):
    n = None
    for i in range(depth):
        # the failures of long chains are reported in ever longer messages, so they are narrow
        n = Node(rng, rng.choice([0, 1, 2]) if depth > 4 else width, n, level=depth - 1 - i, **kw)
    return n


def shape(rng):
    """(depth, width): long chains or wide schemas."""
    return rng.choice([(rng.randrange(8, 60), 1), (1, rng.randrange(40, 300)), (2, rng.randrange(30, 90)), (rng.randrange(2, 5), 10)])


def data(rng, n, p_bad, p_opt=.8, p_unknown=None, update=False, p_dump=0):
    """(data, values expected, report expected); a report maps keys to lists of messages, nested reports, or None for any message."""
    d, vals, rep = {}, {}, {}
    if p_unknown is None:
        p_unknown = p_bad
    for k in range(rng.choice([1, 3]) if p_unknown and rng.random() < p_unknown else 0):
        d[f'u{k}'] = rng.choice([1, None, {}])
        rep[f'u{k}'] = [None]
    if p_unknown and rng.random() < .3 and len(n.fields) > 20:
        for k in range(rng.randrange(200)):
            d[f'w{k}'] = k
            rep[f'w{k}'] = [None]
    for f in n.fields:
        if f.sub is not None:
            if rng.random() < (.97 if not f.req or update else .99 if p_bad else 1):
                d[f.lk], vals[f.name], sub = data(rng, f.sub, p_bad, p_opt, p_unknown if p_unknown < 1 else .1, False, p_dump)
                if sub:
                    rep[f.lk] = [sub]
            elif f.req and not update:
                rep[f.lk] = [None]
            continue
        q = rng.random()
        if q < p_bad:
            k = rng.randrange(4)
            if k == 0 and f.req and not update:
                rep[f.lk] = [None]
            elif k == 1:
                d[f.lk] = None
                rep[f.lk] = [None]
            elif k == 2 or not f.many:
                d[f.lk] = 'no'
                rep[f.lk] = [None]
            else:
                d[f.lk] = v = -rng.randrange(1, 10 ** 6)
                rep[f.lk] = [f'neg{i} {v};' for i in range(f.many)]
        elif (f.req and not update) or rng.random() < p_opt:
            d[f.lk] = vals[f.name] = rng.randrange(10 ** 6) * 7 + (3 if p_dump and rng.random() < p_dump else 0)
        elif f.default is not None and not update:
            vals[f.name] = f.default
    items = list(d.items())
    rng.shuffle(items)
    return dict(items), vals, rep


def strip(n, d, rep):
    """The data without what fails (its own level only)."""
    return {k: v for k, v in d.items() if k not in rep}


def same_report(raw, rep, path=()):
    check(type(raw) is dict and set(raw) == set(rep), 'a large report has other keys', path=path, missing=set(rep) - set(raw), extra=set(raw) - set(rep))
    for k, ms in rep.items():
        got = raw[k]
        check(type(got) is list and len(got) == len(ms), 'a large report has another number of messages for a key', path=path, key=k, got=len(got), expected=len(ms))
        if isinstance(ms[0], dict):
            check(isinstance(got[0], dict), 'a nested failure is not a nested report', path=path, key=k, got=got[0])
            same_report(got[0], ms[0], path + (k,))
        elif ms[0] is None:
            check(isinstance(got[0], str) and got[0] and not got[0].startswith('neg'), 'another message', path=path, key=k, got=got[0])
        else:
            check(sorted(got) == sorted(ms), 'other messages of a key', path=path, key=k, got=got[:5], expected=ms[:5])


def same_values(n, inst, vals):
    level = 0
    todo = [(n, inst, vals)]
    while todo:
        n, inst, vals = todo.pop()
        check(type(inst) is n.cls, 'an instance of another class', level=level)
        for f in n.fields:
            got = inst.get_value_for(f.name, Ellipsis)
            if f.name not in vals:
                check(got is Ellipsis, 'a field that was not given has a value', field=f.name, level=level, value=got)
            elif f.sub is None:
                check(got == vals[f.name] and type(got) is int, 'a field has another value', field=f.name, level=level, value=got, expected=vals[f.name])
            else:
                todo.append((f.sub, got, vals[f.name]))
        level += 1


def attributed(n, errors, rep, d, seen, path=()):
    """Every error names the schema, field and key it came from."""
    own = None
    for fe in errors:
        info = dict(path=path, key=fe.key)
        check(type(fe.schema) is n.cls, 'an error of a large failure names a schema of another level', schema=type(fe.schema), expected=n.cls, **info)
        check(own is None or fe.schema is own, 'errors of one level name several instances', **info)
        own = fe.schema
        check(fe.key in rep, 'an error has another key', **info)
        f = n.by.get(fe.key)
        check(fe.field is (None if f is None else n.cls.__dict__[f.name]), 'an error names another field', field=fe.field, **info)
        if fe.key in d and f is not None and (f.sub is None or isinstance(fe.message, dict)):
            check(isinstance(fe.context, oblate.LoadContext) and fe.context.field is fe.field and fe.context.value is d[fe.key] and fe.context.schema is own, 'an error has the context of another value', **info)
        seen.append(fe)
        if isinstance(fe.message, dict):
            attributed(f.sub, [x for l in fe.message.values() for x in l], rep[fe.key][0], d[fe.key], seen, path + (fe.key,))
    return own


def texts(rep):
    """Keys and messages of a report, at all levels."""
    for k, ms in rep.items():
        yield k
        for m in ms:
            if isinstance(m, dict):
                yield from texts(m)
            elif m is not None:
                yield m


def dumped(n, vals):
    """(dictionary, report) expected of a dump of values."""
    out, rep = {}, {}
    for f in n.fields:
        if f.name not in vals:
            continue
        if f.sub is not None:
            out[f.dk], sub = dumped(f.sub, vals[f.name])
            if sub:
                rep[f.lk] = [sub]
        elif issubclass(type(n.cls.__dict__[f.name]), Dumper) and vals[f.name] % 7 == 3:
            rep[f.lk] = [f'dump {vals[f.name]}']
        else:
            out[f.dk] = vals[f.name]
    return out, rep
