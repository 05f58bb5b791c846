"""C17: families of copies: same values at the copy, nothing shared afterwards."""
import collections
import copy

import oblate

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, Foreign, World, bind, check_verdict, cmp_values, fields_of, mvals, vals_of
from ..values import MObj

ID = 'C17'
QUICK, THOROUGH = 4000, 100000
RULE = ('random histories over families of up to 7 copies (copies of copies, frozen, inherited, nested, slotted and unslotted): updates, assignments (valid, invalid, interrupted by a foreign exception), '
        'replacement and in-place change of dict/list states; all members compared with their models after every step; distinct by (operation, outcome, generation, state kind, unset fields)')
NEED = ['copied', 'copy_of_copy', 'update_ok', 'update_failed', 'assign_ok', 'assign_failed', 'interrupted', 'state_replaced', 'state_mutated', 'unset_in_copy', 'false_values', 'was_unset', 'copied_early']


class DD(collections.defaultdict):
    pass


def gen_state(rng):
    return rng.choice([lambda: None, lambda: {}, lambda: {'k': 1, 'l': [1]}, lambda: [], lambda: [1, 2, 3], lambda: 'text', lambda: 5, lambda: collections.OrderedDict(a=1, b=2),
                       lambda: DD(int, {'z': 0}), lambda: V.ListSub([0]), lambda: V.Tagged(3), lambda: (1, [2])])()


def mutate(rng, st):
    """Change a dict or list state in place."""
    if isinstance(st, dict):
        op = rng.choice(['set', 'new', 'del', 'clear', 'update', 'setdefault'])
        if op == 'set' and st:
            st[rng.choice(list(st))] = rng.randrange(100)
        elif op == 'del' and st:
            del st[rng.choice(list(st))]
        elif op == 'clear':
            st.clear()
        elif op == 'setdefault':
            st.setdefault('sd', rng.randrange(100))
        else:
            st.update({f'n{rng.randrange(5)}': rng.randrange(100)})
        return True
    if isinstance(st, list):
        op = rng.choice(['append', 'pop', 'set', 'clear', 'insert', 'reverse'])
        if op == 'pop' and st:
            st.pop()
        elif op == 'set' and st:
            st[rng.randrange(len(st))] = rng.randrange(100)
        elif op == 'clear':
            st.clear()
        elif op == 'reverse':
            st.reverse()
        else:
            st.insert(0 if op == 'insert' else len(st), rng.randrange(100))
        return True
    return False


class Member:
    def __init__(self, real, mobj, gen):
        self.real, self.mobj, self.gen = real, mobj, gen
        self.state = V.canon(real.context.state)
        self.ids = {}


def check_all(ms, trace, ss):
    for k, m in enumerate(ms):
        info = dict(schema=repr(ss), member=k, history=trace)
        a, b = vals_of(m.real), mvals(m.mobj)
        check(a == b, 'a member of a family of copies has other field values than its own history gives', real=a, expected=b, **info)
        check(V.canon(m.real.context.state) == m.state, 'a member of a family of copies has another state than its own history gives', got=m.real.context.state, expected=m.state, **info)
        check(m.real.context.schema is m.real and m.real.context.is_initialized(), 'the context of a member is not its own initialized context', **info)


def case(rng, mon, i, tier):
    w = World(rng)
    prof = dict(err_kinds=ERR_KINDS, load_rates=[0, 0, 4], p_frozen=.1, p_object=.3, p_instr=.7, p_default=.2, p_fmt=.2, vrate=rng.choice([0, 0, 3, 6]), p_config=.5, p_sfrozen=.05)
    ss = w.gen_schema(rng.choice([0, 1, 1]), prof, nf=rng.choice([1, 2, 3, 4, 6]))
    early = []
    d0 = w.gen_data(ss, rng, rng.choice([0, 0, 0, 1]), p_opt=rng.choice([.2, .6, 1]))
    if rng.random() < .3:
        # copies made by user code while the schema is being constructed
        def copying(kind, sp, schema, value, ctx):
            if schema is not None and len(early) < 4 and rng.random() < .4:
                had = {f.name: x for f, x in fields_of(schema)[1]}
                c = schema.copy()
                early.append((kind, schema, c, had, V.canon(schema.context.state)))
        w.on_step = copying
    r = w.construct(ss, d0, state=gen_state(rng))
    w.on_step = None
    for kind, schema, c, had, st in early:
        mon.count('copied_early')
        now = {f.name: x for f, x in fields_of(c)[1]}
        info = dict(schema=repr(ss), made_in=kind, constructed=r.ok)
        check(type(c) is type(schema) and c is not schema and c.context.schema is c and c.context.is_initialized(), 'a copy made during the construction is not an initialized schema of its own', **info)
        check(set(now) == set(had) and all(now[k] is had[k] for k in had), 'a copy made during the construction has other values than the schema had', got=now, expected=had, **info)
        check(V.canon(c.context.state) == st, 'a copy made during the construction has another state', **info)
    if not r.ok or r.merrs:
        mon.count('no_instance')
        return
    ms = [Member(r.real, r.mobj, 0)]
    trace = []
    for step in range(rng.choice([4, 8, 14])):
        k = rng.randrange(len(ms))
        m = ms[k]
        op = rng.choice(['copy', 'update', 'update', 'update', 'assign', 'assign', 'interrupt', 'state', 'mutate', 'mutate', 'dump'])
        if len(ms) == 1 and step < 2:
            op = 'copy'
        if op == 'copy' and len(ms) < 7:
            c = m.real.copy()
            info = dict(schema=repr(ss), member=k, history=trace)
            check(type(c) is type(m.real) and c is not m.real, 'copy() is not a new schema of the same class', **info)
            check(c.context is not m.real.context and c.context.schema is c and c.context.is_initialized(), 'the context of a copy is not its own initialized context', **info)
            check(c.context.config is m.real.context.config, 'the context of a copy has another configuration', **info)
            for f in ss.all_fields():
                x, y = m.real.get_value_for(f.name, V.SENT), c.get_value_for(f.name, V.SENT)
                check(x is y, 'copy() gives a field another value', field=f.name, got=y, expected=x, **info)
                mon.count('unset_in_copy', x is V.SENT)
                mon.count('false_values', x is not V.SENT and type(x) in (int, str, bool, list, dict, type(None)) and not x)
            mo = MObj(ss, None)
            mo.vals = dict(m.mobj.vals)
            mo.initialized = True
            n = Member(c, mo, m.gen + 1)
            check(n.state == m.state, 'copy() has another state', got=n.state, expected=m.state, **info)
            ms.append(n)
            mon.count('copied')
            mon.count('copy_of_copy', m.gen > 0)
            trace.append(f'm{len(ms) - 1}=m{k}.copy()')
        elif op == 'update':
            unset = [f for f in ss.all_fields() if f.name not in m.mobj.vals]
            d = w.gen_data(ss, rng, rng.choice([0, 0, 1, 2]), p_opt=.4)
            trace.append(f'm{k}.update({d!r})')
            u = w.update(m.real, m.mobj, d)
            v = check_verdict(u)
            mon.count('update_ok' if v == 'ok' else 'update_failed')
            mon.count('was_unset', v == 'ok' and any(f.name in m.mobj.vals for f in unset))
            for ev in u.events:
                if ev.kind in ('raw', 'val', 'load') and type(ev.schema) is type(m.real) and ev.schema is not m.real:
                    check(not any(ev.schema is x.real for x in ms), 'an update of one member ran callbacks on another one', history=trace, r=u)
            mon.seen(op, v, m.gen, len(unset), len(ms), len(d))
        elif op == 'assign':
            f = rng.choice(ss.all_fields())
            x = w.fail_value(f, rng)[0] if rng.random() < .4 else w.ok_value(f, rng)[0]
            trace.append(f'm{k}.{f.name} = {x!r}')
            u = w.assign(m.real, m.mobj, f, x)
            v = check_verdict(u)
            mon.count('assign_ok' if v == 'ok' else 'assign_failed')
            mon.seen(op, v, m.gen, f.kind)
        elif op == 'interrupt':
            d = w.gen_data(ss, rng, 0, p_opt=.6)
            left = [rng.randrange(4)]
            hit = []
            exc = Foreign('x')

            def cb(kind, spec, schema, value, ctx):
                left[0] -= 1
                if left[0] == -1:
                    hit.append(1)
                    raise exc
            w.on_step = cb
            try:
                m.real.copy().update(d) if rng.random() < .2 else m.real.update(d)
            except (Foreign, oblate.OblateException):
                done = False
            else:
                done = True
            w.on_step = None
            trace.append(f'm{k}.update({d!r}) interrupted={bool(hit)}')
            mon.count('interrupted', bool(hit))
            if not hit or done:
                # completed or failed by itself: resynchronise this member only
                now = {f.name: x for f in ss.all_fields() if (x := m.real.get_value_for(f.name, V.SENT)) is not V.SENT}
                m.mobj.vals = now
        elif op == 'state':
            m.real.context.state = gen_state(rng)
            m.state = V.canon(m.real.context.state)
            mon.count('state_replaced')
            trace.append(f'm{k}.state = {m.state}')
        elif op == 'mutate':
            if mutate(rng, m.real.context.state):
                m.state = V.canon(m.real.context.state)
                mon.count('state_mutated')
                mon.seen('mutate', type(m.real.context.state).__name__, m.gen, len(ms))
                trace.append(f'm{k}.state changed in place')
        elif op == 'dump':
            d = w.dump(m.real, m.mobj)
            if check_verdict(d) == 'ok':
                check(V.canon(d.real) == V.canon(d.mvalue), 'dump of a member differs', got=d.real, expected=d.mvalue, history=trace, r=d)
        check_all(ms, trace, ss)
    mon.sample(f'{ss!r}: {"; ".join(trace)}')
    texpr.release(None)
