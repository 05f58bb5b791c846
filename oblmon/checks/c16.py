"""C16: inheritance graphs against Python's method resolution order; bases never altered."""
import copy

import oblate
from oblate import validate as VD

from .. import texpr, values as V
from ..core import check
from ..world import ERR_KINDS, SSpec, VSpec, World, check_report, check_verdict, cmp_values

ID = 'C16'
QUICK, THOROUGH = 3500, 80000
RULE = ('random inheritance graphs of 3-9 schemas (chains, siblings, diamonds, plain mixins) with overrides, renamed and vacated keys and subclass validators by name and by field; '
        'every class is probed by construct/update/dump right after definition and again after all others were defined and used; distinct by (class shape, overrides, extensions, outcome)')
NEED = ['chain', 'diamond', 'several_bases', 'override', 'vacated_key', 'extended', 'extended_chain', 'reprobed', 'mixin', 'ok', 'errors', 'overridden_kind', 'overriding_extended']


class Graph:
    def __init__(self, w, rng, mon):
        self.w, self.rng, self.mon = w, rng, mon
        self.specs = []
        self.shadow = {}
        self.facts = {}

    def resolve(self, shadow, name, ext=True):
        for c in shadow.__mro__:
            s = c.__dict__.get('spec')
            if s is None:
                continue
            for f in s.own:
                if f.name == name:
                    if not ext and getattr(f, 'root', None) is not None:
                        break
                    return f
        return None

    def names(self, shadow):
        return {f.name for c in shadow.__mro__ if 'spec' in c.__dict__ for f in c.__dict__['spec'].own}

    def resolved(self, shadow):
        return {n: self.resolve(shadow, n) for n in sorted(self.names(shadow))}

    def ambiguous(self, shadow):
        """Extended fields of one branch meeting other definitions of another branch."""
        for n in self.names(shadow):
            f = self.resolve(shadow, n)
            chain = set()
            g = f
            while g is not None:
                chain.add(id(g))
                g = getattr(g, 'root', None)
            for c in shadow.__mro__:
                if 'spec' in c.__dict__:
                    for g in c.__dict__['spec'].own:
                        if g.name == n and id(g) not in chain and (getattr(g, 'root', None) is not None or getattr(f, 'root', None) is not None):
                            # a definition or extension that the selected field does not build on
                            top = f
                            while getattr(top, 'root', None) is not None:
                                top = top.root
                            owners = [k for k in shadow.__mro__ if 'spec' in k.__dict__]
                            io = next(i for i, k in enumerate(owners) if any(x is top for x in k.__dict__['spec'].own))
                            ig = next(i for i, k in enumerate(owners) if any(x is g for x in k.__dict__['spec'].own))
                            if ig < io:
                                return True
        return False

    def define(self, k):
        rng, w, mon = self.rng, self.w, self.mon
        ss = SSpec(f'G{w.uid()}')
        nb = 0 if not self.specs else rng.choice([0, 1, 1, 1, 2, 2, 3])
        parents = rng.sample(self.specs, min(nb, len(self.specs)))
        mix = rng.random() < .15
        try:
            # the shadow classes have the mixins, too: they matter for the resolution order
            sh = type(ss.name, (type('Mixin', (), {}),) * mix + tuple(self.shadow[p.name] for p in parents), {'spec': ss})
        except TypeError:
            return
        ss.parents = parents
        if self.ambiguous(sh):
            return
        prof = dict(p_keys=0, p_inherit=0, p_config=0, err_kinds=ERR_KINDS, p_object=.1, validators=.5, p_frozen=.1, p_fmt=.3, load_rates=[0, 3], dump_rates=[0, 3], vrate=rng.choice([0, 2, 5]))
        inherited = self.resolved(sh)
        nown = rng.choice([0, 1, 1, 2, 3]) if parents else rng.choice([1, 2, 3])
        pool = [n for n in w.NAMES[:9]]
        own = rng.sample(pool, nown)
        if inherited and rng.random() < .5:
            own = list(dict.fromkeys([rng.choice(list(inherited))] + own))
        for n in own:
            f = w.gen_field(n, rng.choice([0, 0, 1]), prof)
            if rng.random() < .5:
                key = rng.choice(w.KEYS + w.NAMES[:6])
                mode = rng.choice(['load_key', 'dump_key', 'data_key'])
                setattr(f, mode, key)
            ss.own.append(f)
        now = self.resolved(sh)
        for attr in ('lk', 'dk'):
            if len({getattr(f, attr) for f in now.values()}) < len(now):
                for f in ss.own:
                    f.load_key = f.dump_key = f.data_key = None
        for attr in ('lk', 'dk'):
            if len({getattr(f, attr) for f in now.values()}) < len(now):
                return
        # validators for inherited fields
        extra, exts = {}, []
        own_fs = list(ss.own)
        for n, f in inherited.items():
            if n in own or rng.random() < .7:
                continue
            g = copy.copy(f)
            g.root = f
            g.vs = list(f.vs)
            for _ in range(rng.choice([1, 1, 2])):
                v = VSpec(f'v{w.uid()}', rng.random() < .4, 'meth_name', rng.choice(ERR_KINDS), rng.choice([0, 3, 6, 16]))
                v.owner = g
                g.vs.append(v)
                fn = w.make_validator(v, g)
                by_name = rng.random() < .7
                extra[f'check_{v.id}'] = None
                if by_name:
                    extra[f'check_{v.id}'] = VD.field(n, raw=v.raw)(fn)
                else:
                    # by a field object of the bases
                    exts.append((extra[f'check_{v.id}'], v, n, fn))
            ss.own.append(g)
        for f in own_fs:
            # a validator of an overriding field that names the field of a base
            if f.name in inherited and rng.random() < .3:
                v = VSpec(f'v{w.uid()}', rng.random() < .4, 'extension', rng.choice(ERR_KINDS), rng.choice([0, 3, 6, 16]))
                v.owner = f
                post = [x for x in f.vs if x.style == 'post_add']
                f.vs = [x for x in f.vs if x.style != 'post_add'] + [v] + post
                extra[f'check_{v.id}'] = None
                exts.append((None, v, f.name, w.make_validator(v, f)))
                mon.count('overriding_extended')
        # build: only really own fields are made, extensions come from the library
        full, ss.own = ss.own, [f for f in ss.own if getattr(f, 'root', None) is None]
        for d, v, n, fn in exts:
            # any base that defines or extends it, not only the one that provides it
            base = rng.choice([b for b in type(ss.name, tuple(p.cls for p in parents), {'__module__': 'm'}).__mro__ if n in vars(b)])
            extra[f'check_{v.id}'] = VD.field(vars(base)[n], raw=v.raw)(fn)
        if mix:
            extra['helper2'] = lambda self: 1
        self.build(ss, extra, mix)
        ss.own = full
        ss.__dict__.pop('_af', None)
        self.shadow[ss.name] = sh
        self.specs.append(ss)
        mon.count('mixin', mix)
        mon.count('several_bases', len(parents) > 1)
        mon.count('chain', len(sh.__mro__) > 3)
        mon.count('diamond', len(parents) > 1 and len(set.intersection(*[set(self.shadow[p.name].__mro__) for p in parents])) > 1)
        mon.count('override', any(n in inherited for n in own))
        mon.count('overridden_kind', any(n in inherited and inherited[n].kind != f.kind for n in own for f in ss.own if f.name == n))
        mon.count('extended', bool(extra) and len(full) > len(own_fs))
        mon.count('extended_chain', any(getattr(f, 'root', None) is not None and getattr(f.root, 'root', None) is not None for f in ss.own))
        self.facts[ss.name] = self.fact(ss)
        self.shape = None
        return ss

    def build(self, ss, extra, mix):
        if not mix:
            return self.w.build(ss, extra)
        meta = type(oblate.Schema)

        # a plain mixin placed before the schema bases
        Mixin = type('Mixin', (), {'__slots__': (), 'helper': lambda self: type(self).__name__})
        bases = (Mixin,) + (tuple(p.cls for p in ss.parents) or (oblate.Schema,))
        ns = {'__module__': 'oblmon.generated', '__monspec__': ss}
        late = {}
        for f in ss.own:
            ns[f.name] = self.w.make_field(f)
            for v in f.vs:
                if v.style in ('meth_obj', 'meth_name'):
                    late[f'check_{v.id}'] = VD.field(f.real if v.style == 'meth_obj' else f.name, raw=v.raw)(self.w.make_validator(v, f))
        ns.update(late)
        ns.update(extra)
        ss.cls = meta(ss.name, bases, ns)
        for f in ss.own:
            for v in f.vs:
                if v.style == 'post_add':
                    getattr(ss.cls, f.name).add_validator(self.w.make_validator(v, f), raw=v.raw)

    def fact(self, ss):
        """Public view of the fields of a class."""
        out = {}
        for f in ss.all_fields():
            x = getattr(ss.cls, f.name)
            out[f.name] = (id(x), x.name, x.load_key, x.dump_key, x.none, x.required, x.frozen, x.default if not isinstance(x.default, (list, dict)) else repr(x.default), x.has_default(),
                           tuple(map(id, x.walk_validators(raw=True))), tuple(map(id, x.walk_validators(raw=False))))
        return out

    def probe(self, ss, again=False):
        rng, w, mon = self.rng, self.w, self.mon
        info = dict(graph=[repr(s) for s in self.specs], cls=ss.name)
        for f in ss.all_fields():
            x = getattr(ss.cls, f.name)
            check(x.load_key == f.lk and x.dump_key == f.dk and x.name == f.name, 'a field of a class has wrong names', field=f, got=(x.name, x.load_key, x.dump_key), **info)
        fact = self.fact(ss)
        check(fact == self.facts[ss.name], 'fields of a class changed after its definition', changed={k: (fact[k], self.facts[ss.name].get(k)) for k in fact if fact[k] != self.facts[ss.name].get(k)}, **info)
        vac = {f.lk for s in self.specs for f in s.own} - set(ss.by_key())
        for _ in range(2):
            data = w.gen_data(ss, rng, rng.choice([0, 0, 1, 2]), p_opt=.8)
            if vac and rng.random() < .3:
                data = {**data, rng.choice(sorted(vac)): 'x'}
                mon.count('vacated_key')
            r = w.construct(ss, data)
            v = check_verdict(r)
            mon.count(v)
            mon.seen(len(ss.cls.__mro__), len(ss.parents), tuple(sorted(f.kind for f in ss.all_fields()))[:4], any(getattr(f, 'root', None) is not None for f in ss.all_fields()), v, again)
            if v == 'errors':
                check_report(r)
                continue
            cmp_values(r.real, r.mobj, r=r)
            d = w.dump(r.real, r.mobj)
            if check_verdict(d) == 'ok':
                check(V.canon(d.real) == V.canon(d.mvalue), 'dump differs', got=d.real, expected=d.mvalue, r=d)
            else:
                check_report(d)
            u = w.update(r.real, r.mobj, w.gen_data(ss, rng, rng.choice([0, 1]), p_opt=.4))
            if check_verdict(u) == 'errors':
                check_report(u)
            cmp_values(r.real, r.mobj, r=u)
        # nothing defined elsewhere leaked in: names of other classes' fields are unknown here
        names = {f.name for f in ss.all_fields()}
        known = names | set(ss.by_key())
        for n in w.NAMES[:9]:
            if n not in known:
                try:
                    ss.cls({}).get_value_for(n)
                except (oblate.ValidationError, RuntimeError):
                    pass
                else:
                    check(False, 'a class knows a field it does not have', name=n, **info)


def case(rng, mon, i, tier):
    w = World(rng)
    g = Graph(w, rng, mon)
    for k in range(rng.choice([3, 4, 6, 9])):
        ss = g.define(k)
        if ss is None:
            continue
        if rng.random() < .7:
            g.probe(ss)
        if rng.random() < .3:
            w.pool.append(ss)
        if rng.random() < .4:
            g.probe(rng.choice(g.specs), True)
    for ss in g.specs:
        g.probe(ss, True)
        mon.count('reprobed')
    mon.sample(' | '.join(f'{s.name}({",".join(p.name for p in s.parents)}): {[f.name for f in s.own]}' for s in g.specs))
    texpr.release(None)
