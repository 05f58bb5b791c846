"""Schemas of plain library fields with built-in validators, for the monitors that compare outcomes only."""
import oblate
from oblate import fields as F

from . import texpr, values as V


class Watched:
    """Calls back whenever it is compared, measured or converted."""
    hook = staticmethod(lambda what: None)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'Watched({self.tag})'

    def __eq__(self, o):
        Watched.hook('eq')
        return isinstance(o, Watched) and o.tag == self.tag or self.tag == o

    def __hash__(self):
        return hash(self.tag)

    def __len__(self):
        Watched.hook('len')
        return self.tag

    def __int__(self):
        Watched.hook('int')
        return self.tag

    def __float__(self):
        Watched.hook('float')
        return float(self.tag)

    def __str__(self):
        Watched.hook('str')
        return ['False', 'True', 'yes', 'no', '12'][self.tag % 5]


class Field:
    def __init__(self, name, lk, values):
        self.name, self.lk, self.values = name, lk, values


class BuiltSpec:
    """Same interface as a schema specification, as far as the comparing monitors use it."""
    def __init__(self, rng, nested=True):
        from .checks import c14
        self.name = f'Built{rng.randrange(1000)}'
        self.fs = []
        ns = {'__module__': 'oblmon.generated', '__monspec__': self}
        desc = []
        shared = []
        for name in rng.sample(['a', 'b', 'c', 'd', 'e'], rng.choice([2, 3, 4])):
            lk = name.upper() if rng.random() < .4 else name
            kw = dict(load_key=lk, required=rng.random() < .3, none=rng.random() < .3)
            q = rng.random()
            if q < .5:
                if shared and rng.random() < .4:
                    ms = [rng.choice(shared)]
                else:
                    kind = rng.choice(['range', 'from_standard', 'length', 'regex', 'exclude', 'exclude', 'or'])
                    ms = [c14.make(rng, kind) for _ in range(rng.choice([1, 1, 2]))]
                    shared += ms
                vals = [v for m in ms for v in m[2] if c14.compatible(ms, v)]
                if all(isinstance(m[0], (oblate.validate.Exclude, oblate.validate.Length)) for m in ms):
                    vals += [Watched(rng.randrange(4)) for _ in range(3)]
                if not vals:
                    # nothing of the kinds all of them document
                    ms, vals = [], ['v', 1]
                ns[name] = F.Any(validators=[m[0] for m in ms], **kw)
                desc.append((name, [(type(m[0]).__name__, m[3]) for m in ms]))
            elif q < .8:
                cls, vals = rng.choice([(F.Integer, [1, '2', 'x', 'y', 'zz', 2.5, 1.0, True, '1', V.IntSub(1), 'q', b'w', (1,), 'a b', [2]]), (F.Float, [1.5, '2', 'x', 'y', 'zz', 3, 1, True, '1', 1.0, 'q', b'w', (1,), 'a b', [2]]),
                                         (F.Boolean, [True, 'yes', 'no', 'x', 'y', 1, 1.0, '1', 0, 0.0, '0', False]), (F.String, ['a', 5, b'x', 1, 1.0, True, '1', 5.0])])
                vals = vals + [Watched(k) for k in range(5)]
                ns[name] = cls(strict=rng.random() < .3, **kw)
                desc.append((name, cls.__name__))
            elif q < .9 and nested:
                sub = BuiltSpec(rng, False)
                vals = [sub.data(rng, rng.choice([0, 1])) for _ in range(5)]
                ns[name] = F.Object(sub.cls, **kw)
                desc.append((name, sub))
            else:
                n = texpr.gen(rng, 2)
                vals = [texpr.value_for(n, rng) for _ in range(6)]
                ns[name] = F.TypeExpr(n.tp, **kw)
                desc.append((name, n.desc()))
            if kw['none']:
                vals.append(None)
            self.fs.append(Field(name, lk, vals))
        self.desc = desc
        self.cls = type(oblate.Schema)(self.name, (oblate.Schema,), ns)

    def all_fields(self):
        return self.fs

    def data(self, rng, nbad=0, p_opt=.8):
        d = {f.lk: rng.choice(f.values) for f in self.fs if rng.random() < p_opt}
        if rng.random() < nbad * .2:
            d['zz'] = V.atom(rng)
        return d

    def value(self, f, rng):
        return rng.choice(f.values)

    def __repr__(self):
        return f'{self.name}{self.desc!r}'
