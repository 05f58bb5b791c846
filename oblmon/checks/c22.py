"""C22: configured error class, format_error calls and user error objects, against the model and the event log."""
import collections

import oblate

from .. import noise, texpr, values as V
from ..core import check
from ..world import ERR_KINDS, MULTI_MSG, MObj, World, check_verdict, instances, match_errors

ID = 'C22'
QUICK, THOROUGH = 7000, 150000
RULE = ('random nested schemas with format_error overrides of 7 kinds on built-in and custom fields, validators/loaders/dumpers raising 19 kinds of errors with states, failing constructions, updates, assignments and '
        'dumps while the error class is set on, or by replacing, oblate.config between operations; distinct by (operation, error class mode, failure origin, format kind, message kind)')
NEED = ['class_default', 'class_attr', 'class_replaced', 'class_rejected', 'construct', 'update', 'assign', 'dump', 'fmt_calls', 'fmt_required', 'fmt_none', 'fmt_validation', 'fmt_type', 'fmt_metadata', 'state',
        'same_object', 'split', 'default_message', 'nested', 'fmt_metadata_many', 'many_mismatches']


class ErrA(oblate.ValidationError):
    pass


class ErrB(ErrA):
    def raw(self):
        return {'errors': super().raw()}



class ErrD(oblate.ValidationError):
    def __init__(self, errors):
        super().__init__(errors)
        self.count = len(self.errors)


CLASSES = [oblate.ValidationError, ErrA, ErrB, ErrD]


class RWorld(World):
    """Keeps the error objects made by user code."""
    def __init__(self, rng):
        super().__init__(rng)
        self.made = {}

    def keep(self, e):
        if isinstance(e, oblate.FieldError):
            self.made[id(e)] = e
        return e

    def user_error(self, kind, tok):
        return self.keep(super().user_error(kind, tok))

    def fmt_result(self, f, attr):
        return self.keep(super().fmt_result(f, attr))


def walk(es):
    for e in es:
        yield e
        if e.sub:
            yield from walk(e.sub)


def real_of(e, r, inst):
    if isinstance(e.mo, MObj):
        return inst.get(id(e.mo)) if r.op != 'dump' else e.mo.real
    return e.mo


class Foreign(Exception):
    """Looks like the library's class but is another one."""


Foreign.__name__ = Foreign.__qualname__ = 'ValidationError'
Foreign.__module__ = oblate.ValidationError.__module__


class Config:
    """Changes the error class in force."""
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.saved = oblate.config
        self.old = oblate.config.validation_error_cls
        self.cls = self.old
        self.mode = 'default'

    def change(self):
        rng = self.rng
        self.cls = rng.choice(CLASSES)
        if rng.random() < .5:
            self.mode = 'attr'
            oblate.config.validation_error_cls = self.cls
        else:
            self.mode = 'replaced'
            oblate.config = oblate.GlobalConfig(validation_error_cls=self.cls) if rng.random() < .7 else oblate.GlobalConfig()
            if rng.random() < .3:
                self.cls = rng.choice(CLASSES)
                oblate.config.validation_error_cls = self.cls
            else:
                self.cls = oblate.config.validation_error_cls
        check(oblate.config.validation_error_cls is self.cls, 'the error class set is not the one read', set=self.cls, read=oblate.config.validation_error_cls)
        if rng.random() < .4:
            for bad in rng.sample([Exception, ValueError, oblate.OblateException, oblate.FieldError, oblate.FrozenError, object, int, type, Foreign], 4):
                for f in (lambda: setattr(oblate.config, 'validation_error_cls', bad), lambda: oblate.GlobalConfig(validation_error_cls=bad)):
                    try:
                        f()
                    except TypeError:
                        continue
                    check(False, 'a class that is no ValidationError was accepted as validation_error_cls', cls=bad)
            check(oblate.config.validation_error_cls is self.cls, 'a refused error class changed the configuration')
            self.mon.count('class_rejected')

    def restore(self):
        self.saved.validation_error_cls = self.old
        oblate.config = self.saved


def verify(r, w, mon, cfg):
    inst = instances(r) if r.op != 'dump' else {}
    check(type(r.exc) is cfg.cls, f'{r.op}: the failure was not raised as the configured error class', configured=cfg.cls, raised=type(r.exc), mode=cfg.mode, r=r)
    mon.count('class_' + cfg.mode)
    pairs = []
    diff = match_errors(r.exc.errors, r.merrs, pairs)
    check(diff is None, f'{r.op}: reported errors differ: {diff}', r=r)
    op = r.op.split()[0]
    mon.count(op)
    # what user code made is what is reported
    for fe, e in pairs:
        if e.msg[0] in ('any', 'anym', 'nested'):
            mon.count('default_message', e.f is not None and e.msg[0] != 'nested')
            mon.count('nested', e.msg[0] == 'nested')
            check(fe.state is None, f'{r.op}: an error of the library carries a state', state=repr(fe.state), error=repr(e), r=r)
        else:
            check(fe.state is e.state, f'{r.op}: an error lost or changed its state', state=repr(fe.state), expected=repr(e.state), error=repr(e), r=r)
            mon.count('state', e.state is not None)
        mon.seen(op, cfg.mode, e.origin.split()[0], e.f.fmt if e.f else '', e.msg[0], e.state is not None)
    got = {id(fe) for fe, e in pairs}
    for fe, e in pairs:
        if fe.message in ('',) or e.msg[0] not in ('text', 'struct'):
            continue
        src = [m for m in w.made.values() if m.message == fe.message] if not isinstance(fe.message, dict) else [m for m in w.made.values() if m.message is fe.message]
        whole = [m for m in src if not isinstance(m.message, (list, tuple, set))]
        if whole:
            check(any(m is fe for m in whole), f'{r.op}: a FieldError of user code was replaced by another error', error=repr(e), r=r)
            mon.count('same_object')
    # a message list is reported as errors of the same kind with the same attributes
    for m in w.made.values():
        if isinstance(m.message, (list, tuple, set)):
            parts = [fe for fe, e in pairs if isinstance(fe.message, str) and fe.message[:4] in ('tok:', 'fmt:') and fe.message in m.message]
            for fe in parts:
                check(type(fe) is type(m) and fe.state is m.state, f'{r.op}: an error of a message list is of another kind or state', part=(type(fe), fe.state), whole=(type(m), m.state), r=r)
                mon.count('split')
    # format_error calls
    want = collections.Counter()
    spec = {}
    for key in {(id(e.mo), e.f.fid, e.origin): e for e in walk(r.merrs) if e.f is not None and e.f.fmt and ':ERR_' in e.origin}.items():
        e = key[1]
        attr = e.origin.split(':')[-1]
        x = real_of(e, r, inst)
        check(x is not None, 'harness: instance not observed', r=r)
        want[id(x), e.f.fid, attr] += 1
        spec[id(x), e.f.fid, attr] = (x, e)
    have = collections.Counter()
    for n, ev in enumerate(r.events):
        if ev.kind != 'fmt':
            continue
        k = (id(ev.schema), ev.spec.fid, ev.extra)
        have[k] += 1
        info = dict(field=ev.spec.name, code=ev.extra, r=r)
        check(k in want, f'{r.op}: format_error was called for a failure that did not happen, or of another schema, or with an unknown code', **info)
        x, e = spec[k]
        c = ev.ctx
        check(isinstance(c, oblate.ErrorContext) and c.schema is x and c.field is getattr(type(x), ev.spec.name), f'{r.op}: the error context names another schema or field', ctx=(c.schema, c.field), **info)
        check(getattr(c.field, ev.extra, None) == c.error_code, f'{r.op}: the error context has another code', ctx=c.error_code, **info)
        mon.count('fmt_calls')
        if ev.extra == 'ERR_FIELD_REQUIRED':
            mon.count('fmt_required')
            try:
                v = c.get_value()
            except ValueError:
                continue
            check(False, f'{r.op}: a value for a missing field', value=repr(v), **info)
        try:
            v = c.get_value()
        except Exception as ex:
            check(False, f'{r.op}: the error context has no value', exc=repr(ex), **info)
        if ev.extra == 'ERR_NONE_DISALLOWED':
            mon.count('fmt_none')
            check(v is None, f'{r.op}: the error context has another value', value=repr(v), **info)
            continue
        ok = [e.ctx[1]]
        if ev.extra == 'ERR_VALIDATION_FAILED':
            mon.count('fmt_validation')
            ok += [o.value for o in r.events[:n] if o.kind in ('raw', 'val') and o.spec.owner is ev.spec and o.schema is x]
        else:
            mon.count('fmt_type')
            if (ev.spec.kind, ev.extra) in MULTI_MSG:
                ms = c.metadata.get('type_validation_fail_errors')
                check(isinstance(ms, list) and ms and all(isinstance(m, str) and m for m in ms), f'{r.op}: no type validation messages in the metadata', metadata=c.metadata, **info)
                mon.count('fmt_metadata')
                full = w.type_messages(ev.spec, v)
                check(len(ms) == len(full), f'{r.op}: the type validation messages in the metadata are not those of the failure', metadata=ms, expected=full, **info)
                mon.count('fmt_metadata_many', len(full) > 1)
        check(any(v is o or V.same(v, o) for o in ok), f'{r.op}: the error context has another value', value=repr(v), expected=ok, **info)
    for k, n in want.items():
        check(have[k] >= n, f'{r.op}: format_error was not called for a failure', field=spec[k][1].f.name, code=k[2], calls=have[k], failures=n, r=r)


def many(rng, mon):
    """Values with many mismatches: the context of the failure has all the messages, and they are what is reported by default."""
    F = oblate.fields
    import typing as t
    n = rng.choice([2, 6, 12, 40])
    good = rng.randrange(3)
    items = ['bad'] * n + [1] * good
    rng.shuffle(items)
    mk, val = rng.choice([(lambda **kw: (F.TypeExpr, (t.List[int],)), items), (lambda **kw: (F.List, (int,)), items), (lambda **kw: (F.Dict, (str, int)), {f'k{j}': x for j, x in enumerate(items)}),
                          (lambda **kw: (F.Set, (int,)), {f'bad{j}' for j in range(n)} | set(range(good))), (lambda **kw: (F.TypeExpr, (t.Tuple[int, ...],)), tuple(items)),
                          (lambda **kw: (F.TypedDict, (t.TypedDict('Many', {f'k{j}': int for j in range(n + 2)}),)), {f'k{j}': 'bad' for j in range(n - 1)})])
    base, args = mk()
    seen = []
    back = rng.choice([None, None, 'text'])

    def format_error(self, code, ctx):
        seen.append((code, list(ctx.metadata['type_validation_fail_errors'])))
        return back
    Own = type('Own', (base,), {'format_error': format_error})
    A = type(oblate.Schema)('A', (oblate.Schema,), {'x': base(*args, required=False), 'y': Own(*args, required=False), '__module__': 'm'})

    def msgs(name):
        for how in (lambda: A({name: val}), lambda: A({}).update({name: val}), lambda: setattr(A({}), name, val)):
            try:
                how()
            except oblate.ValidationError as e:
                yield e.raw()[name]
            else:
                check(False, 'a mismatching value was accepted', value=val)
    want = n + 2 if base is F.TypedDict else n
    for m in msgs('x'):
        check(len(m) == want, 'not every mismatch is reported', got=len(m), expected=want, field=base.__name__)
    for m2 in msgs('y'):
        check(m2 == (m if back is None else [back]), 'another message than that of format_error is reported', got=m2, expected=m, field=base.__name__)
    for code, ms in seen:
        check(sorted(ms) == sorted(m), 'the type validation messages in the metadata are not those of the failure', metadata=ms, expected=m, field=base.__name__)
        check(code == Own(*args).ERR_TYPE_VALIDATION_FAILED, 'another error code', code=code)
    check(len(seen) == 3, 'format_error was not called once per failure', calls=len(seen))
    mon.count('many_mismatches')
    mon.seen('many', base.__name__, n, good, back)


def case(rng, mon, i, tier):
    if i % 10 == 0:
        many(rng, mon)
    w = RWorld(rng)
    w.twins = False
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 4, 9], dump_rates=[0, 4, 9], p_fmt=.85, p_instr=.7, p_object=.3, vrate=rng.choice([2, 5, 9]), p_frozen=.05)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof)
    if rng.random() < .25:
        noise.install(w, rng, .3)
    cfg = Config(rng, mon)
    try:
        for _ in range(rng.choice([1, 2])):
            if rng.random() < .7:
                cfg.change()
            r = w.construct(ss, w.gen_data(ss, rng, rng.choice([1, 2, 4]), p_opt=rng.choice([.4, .8, 1])))
            w_made = dict(w.made)
            if check_verdict(r) == 'errors':
                verify(r, w, mon, cfg)
                mon.sample(f'{ss!r}: {r.merrs!r}')
            w.made.clear()
            if not r.ok:
                r = w.construct(ss, w.gen_data(ss, rng, 0))
                if check_verdict(r) == 'errors':
                    verify(r, w, mon, cfg)
            w.made.clear()
            if not r.ok:
                continue
            real, mobj = r.real, r.mobj
            for _ in range(rng.choice([2, 3, 4])):
                if rng.random() < .4:
                    cfg.change()
                w.made.clear()
                op = rng.randrange(3)
                if op == 0:
                    r = w.update(real, mobj, w.gen_data(ss, rng, rng.choice([1, 2, 4]), p_opt=.6))
                elif op == 1:
                    f = rng.choice(ss.all_fields())
                    r = w.assign(real, mobj, f, w.fail_value(f, rng)[0])
                else:
                    r = w.dump(real, mobj)
                if check_verdict(r) == 'errors':
                    verify(r, w, mon, cfg)
    finally:
        cfg.restore()
    texpr.release(None)
