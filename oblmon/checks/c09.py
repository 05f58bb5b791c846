"""C09: primitive fields: strict typing and coercion against plain Python conversions."""
import decimal
import fractions

import oblate
from oblate import fields as F

from .. import values as V
from ..core import check
from ..world import SENT

ID = 'C09'
QUICK, THOROUGH = 2400, 60000
RULE = ('4 primitive fields x strict/non-strict x true/false lists (instance, subclass attribute) x overriding subclass x a zoo of ~110 hostile values plus random ones x '
        'construction/update/assignment/nested; distinct by (field, strict, value type, outcome, path)')
NEED = ['strict_accept', 'strict_reject', 'coerced', 'coercion_failed', 'kept_identity', 'override_processed', 'custom_lists', 'construct', 'update', 'assign', 'nested']

ZOO = V.zoo()
KINDS = {'string': (F.String, str), 'integer': (F.Integer, int), 'float': (F.Float, float), 'boolean': (F.Boolean, bool)}


def ref(kind, strict, value, tv, fv):
    """('same', value) | ('new', value) | ('err', code attribute)."""
    typ = KINDS[kind][1]
    if isinstance(value, typ):
        return 'same', value
    if strict:
        return 'err', 'ERR_INVALID_DATATYPE'
    if kind == 'boolean':
        s = str(value)
        if s in list(tv):
            return 'new', True
        if s in list(fv):
            return 'new', False
        return 'err', 'ERR_COERCION_FAILED'
    try:
        return 'new', typ(value)
    except Exception:
        return ('err', 'ERR_COERCION_FAILED')


PIECES = ['0', '1', '7', '12', '500', '9007199254740993', '.', '.', '.0', ',', '_', ' ', '+', '-', 'e', 'E5', 'e-3', 'inf', 'nan', 'Infinity', '0x', '0b1', 'j', '%', '$', "'",
          '\u00a0', '\u0663', '\uff11', '\u00bd', '\u00b2', '\t', '\n', '\x00', 'L', 'f', '/', '(', ')', '1,000', '1 000', 'True', 'None']


def numeric(rng):
    """Numbers of any magnitude and text that is nearly a number."""
    q = rng.random()
    if q < .3:
        return rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randrange(-25, 26)
    if q < .4:
        return float(rng.randrange(-10 ** 17, 10 ** 17)) + rng.choice([0, .5])
    if q < .45:
        return rng.choice([decimal.Decimal, fractions.Fraction])(rng.randrange(-10 ** 6, 10 ** 6)) / rng.choice([1, 2, 8])
    if q < .55:
        return rng.choice([-1, 1]) * rng.randrange(1, 10) ** rng.randrange(1, 60)
    s = ''.join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
    if q < .62:
        # a text of a number, damaged
        s = str(rng.choice([rng.randrange(-10 ** 4, 10 ** 6), rng.random() * 100, True, float(rng.randrange(100)), 10.0 ** rng.randrange(-9, 30), '+5', '1_000', ' 12 ', 'true', 'False', 'yes', '0']))
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(s) + 1)
            how = rng.randrange(5)
            if how == 0:
                s = s[:k] + s[k:k + 1] + s[k:]
            elif how == 1:
                s = s[:k] + rng.choice(PIECES + ['+', '-', '+', '_', '__', '++', '--', ' +']) + s[k:]
            elif how == 2:
                s = s[:k] + s[k + 1:]
            elif how == 3:
                s = s[:k] + s[k:].swapcase()
            else:
                s = rng.choice('+- _.') * rng.choice([1, 2]) + s
        return s
    if q < .7:
        return rng.choice([str, repr])(rng.choice([numeric(rng), rng.randrange(10 ** 6), rng.random() * 1000, float(rng.randrange(1000))]))
    if q < .78:
        return rng.choice([lambda x: x.encode(), lambda x: bytearray(x.encode()), V.StrSub])(s)
    return s


class Spoken(str):
    """Its text is not its characters."""
    def __str__(self):
        return {'other': 'yes', 'True': 'maybe', 'no': '1', '12': 'off', 'on': 'False'}[self[:]]


def case(rng, mon, i, tier):
    kind = rng.choice(list(KINDS))
    base = KINDS[kind][0]
    strict = rng.random() < .4
    codes = []
    shift = rng.choice([None, None, None, 'ctx', 'tuple', 'wrap', 'double'])
    kw = dict(none=rng.random() < .2)
    if not strict or rng.random() < .5:
        kw['strict'] = strict
    ns = {}
    tv, fv = F.Boolean.TRUE_VALUES, F.Boolean.FALSE_VALUES
    check(tuple(tv) == ('TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1') and tuple(fv) == ('FALSE', 'False', 'false', 'NO', 'No', 'no', '0'), 'default true/false lists changed')
    if kind == 'boolean' and rng.random() < .5:
        mon.count('custom_lists')
        pool = ['on', 'off', 'T', 'F', '1', '0', 'Yes', 'No', '2', 'None', '[]', '', '1.5', 'True', 'False', 'intable-3', "b''"]
        t2, f2 = rng.sample(pool, rng.randrange(4)), rng.sample(pool, rng.randrange(4))
        mk = rng.choice([list, tuple])
        if rng.random() < .5:
            if rng.random() < .8:
                kw['true_values'] = tv = mk(t2)
            if rng.random() < .8:
                kw['false_values'] = fv = mk(f2)
        else:
            ns['TRUE_VALUES'] = tv = mk(t2)
            ns['FALSE_VALUES'] = fv = mk(f2)
            if rng.random() < .5:
                kw['true_values'] = tv = mk(rng.sample(pool, 2))

    def format_error(self, code, ctx):
        codes.append((code, ctx.field, ctx.schema, ctx.get_value()))
        return f'code:{code}'
    ns['format_error'] = format_error
    shifted = lambda v: v
    if shift == 'ctx':
        shifted = lambda v: f' {v}' if isinstance(v, str) else v
    elif shift == 'tuple':
        shifted = lambda v: v[0] if isinstance(v, (tuple, list)) and v else v
    elif shift == 'wrap':
        shifted = lambda v: {'1': 1, 'abc': 'True', 1.5: '2'}.get(v, v) if isinstance(v, (str, float)) else v
    elif shift == 'double':
        shifted = lambda v: v * 2 if isinstance(v, (int, str)) and not isinstance(v, bool) else v
    if shift:
        def value_load(self, value, ctx):
            return base.value_load(self, shifted(value), ctx)
        ns['value_load'] = value_load
    cls = type('Prim', (base,), ns)
    fld = cls(**kw)
    lk = rng.choice([None, 'K'])
    S = type(oblate.Schema)('S', (oblate.Schema,), {'x': cls(required=False, **kw, **({'load_key': lk} if lk else {})), '__module__': 'm'})
    O = type(oblate.Schema)('O', (oblate.Schema,), {'s': F.Object(S), '__module__': 'm'})
    key = lk or 'x'
    vals = rng.sample(ZOO, 14) + [V.anyval(rng, 2) for _ in range(4)] + [numeric(rng) for _ in range(4)]
    if rng.random() < .3:
        vals.append(Spoken(rng.choice(['other', 'True', 'no', '12', 'on'])))
    good = {'string': 'g', 'integer': 9, 'float': 9.5, 'boolean': True}[kind]
    for v in vals:
        if v is None and not shift:
            continue
        if v is None:
            continue
        path = rng.choice(['construct', 'construct', 'update', 'assign', 'nested'])
        codes.clear()
        want = ref(kind, strict, shifted(v), tv, fv)
        before = V.canon(v)
        info = dict(kind=kind, kw=repr(kw), value=repr(v)[:300], shift=shift, path=path, expected=repr(want)[:300], tv=tv, fv=fv)
        inst = None
        try:
            if path == 'construct':
                inst = S({key: v})
            elif path == 'nested':
                inst = O({'s': {key: v}}).s
            else:
                inst = S({key: good} if rng.random() < .5 and not shift else {})
                had = inst.get_value_for('x', SENT)
                codes.clear()
                if path == 'update':
                    inst.update({key: v})
                else:
                    inst.x = v
            got = inst.x
        except oblate.ValidationError as e:
            check(want[0] == 'err', 'value rejected that must be accepted', error=str(e), **info)
            raw = e.raw()
            raw = raw['s'][0] if path == 'nested' else raw
            code = getattr(cls, want[1])
            check(raw == {key: [f'code:{code}']}, f'rejected with another error than {want[1]}', raw=raw, **info)
            check(len(codes) == 1 and codes[0][0] == code and codes[0][1] is S.x, 'format_error was called with another code or field', codes=codes, **info)
            check(V.canon(codes[0][3]) == V.canon(shifted(v)), 'the error context has another value than the one rejected', got=repr(codes[0][3]), **info)
            mon.count('strict_reject' if strict else 'coercion_failed')
            out = want[1]
        else:
            check(want[0] != 'err', 'value accepted that must be rejected', got=repr(got)[:300], **info)
            check(not codes, 'format_error called for an accepted value', **info)
            check(type(got) is type(want[1]) and V.canon(got) == V.canon(want[1]), 'stored value is not the documented one', got=repr(got)[:300], **info)
            if want[0] == 'same':
                if shifted(v) is v:
                    check(got is v, 'an instance of the right type was not stored unchanged', **info)
                    mon.count('kept_identity')
                mon.count('strict_accept' if strict else 'lenient_accept')
            else:
                mon.count('coerced')
            if inst is not None:
                d = inst.dump()
                check(list(d) == ['x'] and d['x'] is got, 'dump of a primitive is not its value', dump=repr(d), **info)
            out = want[0]
        if shift and shifted(v) is not v:
            mon.count('override_processed')
        mon.count(path)
        check(V.canon(v) == before, 'the input value was changed', **info)
        mon.seen(kind, strict, type(v).__name__, out, path, bool(shift))
    mon.sample(f'{kind} {kw!r} shift={shift}: {vals[:4]!r}')
