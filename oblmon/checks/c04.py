"""C04: failed updates and assignments are rolled back, whatever made them fail."""
import oblate

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, Foreign, ForeignBase, World, bind, check_verdict, cmp_values, fields_of

ID = 'C04'
QUICK, THOROUGH = 5000, 110000
RULE = ('random schemas and instances; updates and assignments that fail by bad values, unknown keys, frozen fields in every position, mappings that break while '
        'being read, and by an exception injected at each callback position found in a dry run; distinct by (operation, cause, position, values changed before the failure)')
NEED = ['update_failed', 'assign_failed', 'injected', 'frozen', 'broken_mapping', 'partial_then_failed', 'recovered', 'rollback_of_unset', 'injected_positions', 'current_again', 'reentrant', 'reentrant_unset', 'outer_failed']


class Stop(KeyboardInterrupt):
    pass


def snapshot(real):
    return {f.name: (id(x), V.canon(x), inner_context(x)) for f, x in fields_of(real)[1]}


def inner_context(x):
    """The context of a nested instance: it is part of the value."""
    if not isinstance(x, oblate.Schema):
        return None
    c = x.context
    return id(c), c.schema is x, c.is_initialized(), id(c.state), V.canon(c.state), [inner_context(y) for _, y in fields_of(x)[1]]


class Breaking(V.MyMapping):
    """A mapping that raises when its n-th item is read."""
    def __init__(self, d, n, exc):
        super().__init__(d)
        self._n, self._exc, self.reads = n, exc, 0

    def __iter__(self):
        for i, k in enumerate(self._d):
            if i >= self._n:
                self.reads += 1
                raise self._exc
            yield k
        if self._n >= len(self._d):
            raise self._exc

    def items(self):
        for k in self:
            yield k, self._d[k]

    def keys(self):
        return list(iter(self))


def same_state(real, before, what, **info):
    after = snapshot(real)
    check(after == before, f'{what}: field values changed by a failed operation',
          changed={k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}, **info)


def count_positions(w, fn):
    n = [0]

    def step(kind, spec, schema, value, ctx):
        n[0] += 1
    w.on_step = step
    try:
        fn()
    except oblate.OblateException:
        pass
    finally:
        w.on_step = None
    return n[0]


def reentrant(rng, mon, w, ss):
    """Operations that callbacks of a construction or an update perform on the schema being processed."""
    busy = [False]

    def step(kind, spec, schema, value, ctx):
        sp = getattr(type(schema), '__monspec__', None)
        if busy[0] or sp is None or kind not in ('load', 'raw', 'val', 'post', 'default') or not sp.all_fields():
            return
        busy[0] = True
        try:
            f = rng.choice(sp.all_fields())
            v = w.fail_value(f, rng)[0]
            before = snapshot(schema)
            assign = rng.random() < .6
            try:
                if assign:
                    setattr(schema, f.name, v)
                else:
                    g = rng.choice(sp.all_fields())
                    schema.update({g.lk: w.ok_value(g, rng)[0], f.lk: v})
            except oblate.OblateException as e:
                same_state(schema, before, f'{"assignment" if assign else "update"} from a {kind} callback', schema=repr(sp), field=f.name, value=repr(v), exc=repr(e))
                mon.count('reentrant')
                mon.count('reentrant_unset', f.name not in before)
        finally:
            busy[0] = False
    data = w.gen_data(ss, rng, rng.choice([0, 0, 1]), p_opt=.6)
    w.on_step = step
    try:
        s = ss.cls(data)
        s.update(w.gen_data(ss, rng, rng.choice([0, 1])))
    except oblate.OblateException:
        pass
    finally:
        w.on_step = None


def outer_fails(rng, mon, w, ss):
    """Callbacks of an update change the schema being updated; then the update fails."""
    r = w.construct(ss, w.gen_data(ss, rng, 0, p_opt=rng.choice([.3, .7, 1])))
    free = [f for f in ss.all_fields() if not f.frozen]
    if not r.ok or r.merrs or not free:
        return
    real = r.real
    busy, done = [False], []

    def step(kind, spec, schema, value, ctx):
        if busy[0] or schema is not real or kind not in ('load', 'raw', 'val', 'fmt'):
            return
        busy[0] = True
        try:
            for _ in range(rng.choice([1, 1, 2])):
                f = rng.choice(free)
                v = w.ok_value(f, rng)[0]
                try:
                    if rng.random() < .6:
                        setattr(real, f.name, v)
                    else:
                        real.update({f.lk: v})
                    done.append((kind, f.name))
                except oblate.OblateException:
                    pass
        finally:
            busy[0] = False
    before = snapshot(real)
    items = list(w.gen_data(ss, rng, 0, p_opt=.6).items())
    items = [(k, v) for k, v in items if k in {f.lk for f in free}]
    how = rng.choice(['bad', 'unknown', 'exception', 'frozen'])
    if how == 'bad':
        f = rng.choice(free)
        items = [x for x in items if x[0] != f.lk]
        items.insert(rng.randrange(len(items) + 1), (f.lk, w.fail_value(f, rng)[0]))
    elif how == 'unknown':
        items.insert(rng.randrange(len(items) + 1), ('no such', 1))
    elif how == 'frozen':
        items.append((next((f.lk for f in ss.all_fields() if f.frozen), 'no such'), 1))
    data = dict(items)
    if how == 'exception':
        data = Breaking(data, len(data), Foreign('broken'))
    elif rng.random() < .3:
        data = V.wrap_mapping(rng, data)
    w.on_step = step
    try:
        real.update(data, ignore_extra=False)
    except (oblate.OblateException, Foreign):
        pass
    else:
        w.on_step = None
        return
    finally:
        w.on_step = None
    same_state(real, before, f'an update ({how}) whose callbacks changed the schema themselves', schema=repr(ss), data=repr(data), changed_by=done[:5])
    check(real.context.is_initialized() and real.context.schema is real, 'context lost after a failed operation')
    if done:
        mon.count('outer_failed')
        mon.seen('outer', how, done[0][0], len(done))


def case(rng, mon, i, tier):
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 4, 8], p_frozen=.15, p_object=.35, p_instr=.8, p_default=.15, p_fmt=.4, vrate=rng.choice([0, 0, 3, 6]), validators=.6)
    ss = w.gen_schema(rng.choice([0, 1, 1, 2]), prof, nf=rng.choice([2, 3, 4, 5, 7]))
    if rng.random() < .4:
        reentrant(rng, mon, w, ss)
    if rng.random() < .3:
        outer_fails(rng, mon, w, ss)
    r = w.construct(ss, w.gen_data(ss, rng, 0, p_opt=rng.choice([.2, .6, 1])), state=rng.choice([None, {'s': 1}, [1], 'st']))
    if not r.ok or r.merrs:
        mon.count('no_instance')
        return
    real, mobj = r.real, r.mobj
    free = [f for f in ss.all_fields() if not f.frozen]
    frozen = [f for f in ss.all_fields() if f.frozen]
    for _ in range(rng.choice([3, 4, 6])):
        before = snapshot(real)
        mode = rng.choice(['bad', 'bad', 'inject', 'inject', 'inject', 'frozen', 'broken', 'assign_bad', 'assign_inject', 'good'])
        data = {}
        for f in rng.sample(free, rng.randrange(0, len(free) + 1)):
            v, ok = w.ok_value(f, rng)
            if f.kind == 'object' and rng.random() < .4:
                # the value it already has
                cur = real.get_value_for(f.name, None)
                if isinstance(cur, oblate.Schema) and w.accepts(f, cur):
                    v, ok = cur, True
                    mon.count('current_again')
            if ok:
                data[f.lk] = v
        info = dict(schema=repr(ss), data=data, mode=mode)
        kw = {}
        if rng.random() < .3:
            kw['ignore_extra'] = rng.random() < .5
        if mode == 'bad':
            items = list(data.items())
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < .3 or not free:
                    items.append((rng.choice(['zz', None, 7, 'Extra']), 1))
                else:
                    f = rng.choice(free)
                    items = [x for x in items if x[0] != f.lk]
                    items.append((f.lk, w.fail_value(f, rng)[0]))
            rng.shuffle(items)
            r = w.update(real, mobj, V.wrap_mapping(rng, dict(items)), **kw)
            if check_verdict(r) == 'errors':
                mon.count('update_failed')
                same_state(real, before, 'update', r=r)
                good = [f for f in ss.all_fields() if f.lk in dict(items) and f.lk not in [e.key for e in r.merrs]]
                mon.count('partial_then_failed', bool(good))
                mon.count('rollback_of_unset', any(f.name not in before for f in good))
                mon.seen('bad', len(good), len(r.merrs), tuple(sorted({e.origin.split()[0] for e in r.merrs})), any(f.name not in before for f in good))
                mon.sample(f'{ss!r}.update({dict(items)!r}) failed with {r.merrs!r}')
        elif mode == 'frozen' and frozen:
            items = list(data.items())
            f = rng.choice(frozen)
            items.insert(rng.randrange(len(items) + 1), (f.lk, rng.choice([None, 5, w.ok_value(f, rng)[0]])))
            pos = [k for k, _ in items].index(f.lk)
            r = w.update(real, mobj, dict(items), **kw)
            check(check_verdict(r) == 'frozen', 'model: frozen expected', r=r)
            same_state(real, before, 'update with a frozen field', r=r)
            mon.count('frozen')
            mon.seen('frozen', pos, len(items))
        elif mode == 'broken':
            exc = rng.choice([Foreign, ForeignBase, Stop, KeyError, ValueError, RuntimeError])('broken mapping')
            n = rng.randrange(len(data) + 1)
            try:
                real.update(Breaking(data, n, exc), **kw)
            except BaseException as e:
                if e is not exc and not isinstance(e, oblate.ValidationError):
                    check(False, 'a broken mapping raised something else', exc=repr(e), **info)
            else:
                check(False, 'a broken mapping was accepted', **info)
            same_state(real, before, 'update from a broken mapping', n=n, **info)
            mon.count('broken_mapping')
            mon.seen('broken', n, type(exc).__name__)
        elif mode in ('inject', 'assign_inject'):
            if mode == 'assign_inject':
                if not data:
                    continue
                key = rng.choice(list(data))
                f = ss.by_key()[key]
                op = lambda s: setattr(s, f.name, data[key])
            else:
                op = lambda s: s.update(data, **kw)
            total = count_positions(w, lambda: op(real.copy()))
            mon.count('positions_found', total)
            for n in ([] if not total else rng.sample(range(total), min(total, 6 if tier == 'quick' else 25))):
                exc = rng.choice([Foreign, Foreign, ForeignBase, Stop, GeneratorExit, RecursionError, ValueError, AssertionError, KeyError, oblate.OblateException])(f'injected {n}')
                left = [n]
                hit = []

                def step(kind, spec, schema, value, ctx):
                    if left[0] == 0:
                        left[0] = -1
                        hit.append(kind)
                        mon.count('partial_then_failed', any(before.get(f.name, (0, 0))[0] != id(x) for f, x in fields_of(real)[1]))
                        raise exc
                    left[0] -= 1
                w.on_step = step
                try:
                    op(real)
                except BaseException as e:
                    got = e
                else:
                    got = None
                finally:
                    w.on_step = None
                check(hit, 'harness: injection position not reached', n=n, total=total, **info)
                check(got is not None, f'an exception raised by user code ({hit[0]}) was lost', exc=repr(exc), n=n, **info)
                same_state(real, before, f'{mode} {type(exc).__name__} in {hit[0]} callback {n}/{total}', **info)
                mon.count('injected')
                mon.count('injected_positions')
                mon.seen(mode, hit[0], type(exc).__name__, min(n, 8), len(data))
        elif mode == 'assign_bad':
            f = rng.choice(ss.all_fields())
            r = w.assign(real, mobj, f, w.fail_value(f, rng)[0])
            if check_verdict(r) != 'ok':
                mon.count('assign_failed')
                same_state(real, before, 'assignment', r=r)
                mon.seen('assign', f.kind, f.name in before, r.verdict)
        # later valid operations
        if rng.random() < .5:
            r = w.update(real, mobj, data)
            check_verdict(r)
            if r.ok:
                cmp_values(real, mobj, 'valid update after a failed one:', r=r)
                mon.count('recovered')
            w.copy_check(real, mobj)
        check(real.context.is_initialized() and real.context.schema is real, 'context lost after a failed operation', **info)
    cmp_values(real, mobj, 'end of history:')
    texpr.release(None)
