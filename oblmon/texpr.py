"""Type expressions: generator, reference matcher, value generators.

A node knows the real typing object (tp), decides `match(v)` by its own
definition (never by calling the library) and produces values."""
import collections.abc
import decimal
import numbers
import sys
import types
import typing as t
import typing_extensions as te

from . import values as V

_counter = [0]


class Node:
    hashable = False
    tp = None

    def match(self, v):
        raise NotImplementedError

    def gen(self, rng):
        raise NotImplementedError

    def near(self, rng):
        """A value that may narrowly fail (or not): the matcher decides."""
        return V.anyval(rng, 1)

    def desc(self):
        return str(self.tp)


CLS_VALUES = {
    str: lambda r: r.choice(V.STRS), int: lambda r: r.choice(V.INTS + [True, V.IntSub(3), V.Colour.RED]), float: lambda r: r.choice(V.FLOATS),
    bool: lambda r: r.random() < .5, bytes: lambda r: r.choice([b'', b'ab']), V.Vow: lambda r: r.choice([V.Vow, V.SubVow])(r.randrange(3)),
    type(None): lambda r: None, list: lambda r: [V.atom(r)] * r.randrange(3), dict: lambda r: {r.choice(V.STRS): V.atom(r)}, set: lambda r: {V.atom(r)},
    tuple: lambda r: tuple(V.atom(r) for _ in range(r.randrange(3))), object: lambda r: V.anyval(r, 1), numbers.Number: lambda r: r.choice([1, 2.5, True, 1j]),
    collections.abc.Mapping: lambda r: r.choice([{}, {'a': 1}, V.MyMapping({1: 2})]), frozenset: lambda r: frozenset([V.atom(r)]),
    V.Tagged: lambda r: V.Tagged(1), V.Colour: lambda r: V.Colour.BLUE,
    collections.abc.Sized: lambda r: r.choice(['', [1], {}, (), b'x', {1}]), collections.abc.Hashable: lambda r: r.choice([1, 'x', None, ()]), t.SupportsInt: lambda r: r.choice([1, 2.5, True]),
    V.Shape: lambda r: r.choice(list(V.Shape)), V.Pair: lambda r: V.Pair(r.randrange(3), 'x'), type: lambda r: r.choice([int, V.Shape, type]),
}
RARE = [collections.abc.Sized, collections.abc.Hashable, t.SupportsInt, V.Shape, V.Pair, type, list, dict, set, tuple]
HASH_CLS = [str, int, float, bool, bytes, V.Vow, type(None), V.Colour]


class Cls(Node):
    def __init__(self, c):
        self.tp = self.c = c
        self.hashable = c in HASH_CLS

    def match(self, v):
        return isinstance(v, self.c)

    def gen(self, rng):
        return CLS_VALUES[self.c](rng)


def cls_node(rng, c):
    n = Cls(c)
    if c is type(None) and rng.random() < .5:
        n.tp = None  # as in list[None]
    return n


class AnyN(Node):
    def __init__(self):
        self.tp = t.Any

    def match(self, v):
        return True

    def gen(self, rng):
        return V.anyval(rng, 1)


LITS = ['a', 'b', '', 'True', 0, 1, 2, 7, -1, True, False, None, b'ab', V.Shape.DOT, V.Shape.BOX, V.Colour.RED, V.Word.UP, V.Word.DOWN]


def equals(v):
    """Values equal to a literal, of several types."""
    out = [v]
    if isinstance(v, (int, float)) and not isinstance(v, str):
        out += [int(v), float(v), V.IntSub(v), complex(v), decimal.Decimal(int(v))]
        out += [bool(v)] if v in (0, 1) else []
        out += [c for c in V.Colour if c == v]
    elif isinstance(v, str):
        out += [V.StrSub(str.__str__(v)), str.__str__(v)]
    return out


def lookalikes(v):
    """Values that resemble a literal without being equal to it."""
    if isinstance(v, V.Word):
        return [v.name, str(v), repr(v), type(v), v.name.lower(), v.value + ' ']
    if isinstance(v, str):
        return [' ' + v, v + ' ', v + '\n', v.upper(), v.title(), v + v, v[:-1], v.encode(), [v], (v,), {v}]
    if isinstance(v, bytes):
        return [v.decode(), bytearray(v), v + b' ', memoryview(v)]
    if isinstance(v, V.enum.Enum):
        return [v.name, str(v), repr(v), type(v)]
    return [str(v), f' {v}', str(v).lower(), str(v).encode(), [v], (v,), {v: v}]


class Lit(Node):
    hashable = True

    def __init__(self, rng, vals=None):
        if vals is None:
            vals = []
            for v in rng.sample(LITS, rng.choice([1, 1, 2, 3, 4])):
                # equal literals of different types (1/True) are left out
                if not any(v == w for w in vals):
                    vals.append(v)
        self.vals = tuple(vals)
        self.tp = t.Literal.__getitem__(self.vals)

    def match(self, v):
        return any(v is w or v == w for w in self.vals)

    def gen(self, rng):
        v = rng.choice(self.vals)
        # literals match by equality: equal values of other types as well
        return rng.choice(equals(v)) if rng.random() < .25 else v

    def near(self, rng):
        if rng.random() < .4:
            return rng.choice(equals(rng.choice(LITS)))
        if rng.random() < .5:
            return rng.choice(lookalikes(rng.choice(self.vals)))
        return rng.choice(LITS + V.STRS[:8])

    def desc(self):
        return f'Literal{self.vals!r}'


class UnionN(Node):
    def __init__(self, rng, members):
        self.members = members
        self.hashable = all(m.hashable for m in members)
        tps = tuple(m.tp for m in members)
        style = rng.randrange(3)
        self.tp = None
        if style == 0:
            try:
                x = tps[0]
                for y in tps[1:]:
                    x = x | y
                self.tp = x
            except TypeError:
                pass
        if self.tp is None:
            if style == 1 and len(tps) == 2 and tps[1] in (None, type(None)):
                self.tp = t.Optional[tps[0]]
            else:
                self.tp = t.Union[tps]

    def match(self, v):
        return any(m.match(v) for m in self.members)

    def gen(self, rng):
        return rng.choice(self.members).gen(rng)

    def near(self, rng):
        return rng.choice(self.members).near(rng)


def _breaker(rng, elems, k, node):
    i = rng.randrange(len(elems))
    # the last positions matter as much as the first
    if rng.random() < 0.4:
        i = len(elems) - 1
    elems[i] = node.near(rng)
    return elems


def _n(rng):
    return rng.choice([0, 1, 1, 2, 3, 4, 6, 12])


class ListN(Node):
    def __init__(self, rng, elem):
        self.elem = elem
        if elem is None:
            self.tp = rng.choice([t.List, list])
        else:
            self.tp = t.List[elem.tp] if rng.random() < .6 else list[elem.tp]

    def match(self, v):
        return isinstance(v, list) and (self.elem is None or all(self.elem.match(x) for x in v))

    def gen(self, rng):
        if self.elem is None:
            return [V.atom(rng) for _ in range(_n(rng))]
        out = [self.elem.gen(rng) for _ in range(_n(rng))]
        return V.ListSub(out) if rng.random() < .05 else out

    def near(self, rng):
        out = self.gen(rng)
        k = rng.randrange(8)
        if k == 0:
            return tuple(out)
        if k == 1:
            return V.anyval(rng, 1)
        if out and self.elem is not None:
            _breaker(rng, out, 0, self.elem)
        return out


class SeqN(Node):
    def __init__(self, rng, elem):
        self.elem = elem
        if elem is None:
            self.tp = t.Sequence
        else:
            self.tp = t.Sequence[elem.tp] if rng.random() < .7 else collections.abc.Sequence[elem.tp]

    def hashable_items(self, vs):
        try:
            return {hash(x) for x in vs} is not None
        except TypeError:
            return False

    def match(self, v):
        # Documented as a list, set or tuple; subclasses of set/tuple and other sequences are not generated
        return isinstance(v, (list, set, tuple)) and (self.elem is None or all(self.elem.match(x) for x in v))

    def _mk(self, rng, elems):
        k = rng.randrange(5)
        if k == 0:
            try:
                return set(elems)
            except TypeError:
                pass
        return tuple(elems) if k in (1, 2) else list(elems)

    def gen(self, rng):
        return self._mk(rng, [self.elem.gen(rng) if self.elem else V.atom(rng) for _ in range(_n(rng))])

    def near(self, rng):
        out = [self.elem.gen(rng) if self.elem else V.atom(rng) for _ in range(_n(rng))]
        if rng.random() < .15:
            return rng.choice([None, 5, {'a': 1}, 2.5, {}, V.Tagged(1), dict.fromkeys(out, 1).keys() if self.hashable_items(out) else 'ab', {1: x for x in out}.values(), range(2), '', 'ab', b'', iter(out), collections.deque(out)])
        if out and self.elem is not None:
            _breaker(rng, out, 0, self.elem)
        return self._mk(rng, out)


class SetN(Node):
    def __init__(self, rng, elem):
        self.elem = elem
        if elem is None:
            self.tp = rng.choice([t.Set, set])
        else:
            self.tp = t.Set[elem.tp] if rng.random() < .6 else set[elem.tp]

    def match(self, v):
        return isinstance(v, set) and (self.elem is None or all(self.elem.match(x) for x in v))

    def gen(self, rng):
        return {self.elem.gen(rng) if self.elem else V.atom(rng) for _ in range(_n(rng))}

    def near(self, rng):
        out = self.gen(rng)
        k = rng.randrange(8)
        if k == 0:
            return frozenset(out)
        if k == 1:
            return list(out)
        if k == 2:
            return V.anyval(rng, 1)
        try:
            out.add(self.elem.near(rng) if self.elem else V.atom(rng))
        except TypeError:
            pass
        return out


class DictN(Node):
    def __init__(self, rng, k, v, mapping=False):
        self.k, self.v, self.mapping = k, v, mapping
        if k is None:
            self.tp = rng.choice([t.Mapping, collections.abc.Mapping]) if mapping else rng.choice([t.Dict, dict])
        elif mapping:
            self.tp = t.Mapping[k.tp, v.tp] if rng.random() < .7 else collections.abc.Mapping[k.tp, v.tp]
        else:
            self.tp = t.Dict[k.tp, v.tp] if rng.random() < .6 else dict[k.tp, v.tp]

    def match(self, v):
        if not isinstance(v, collections.abc.Mapping if self.mapping else dict):
            return False
        return self.k is None or all(self.k.match(a) and self.v.match(b) for a, b in v.items())

    def _items(self, rng):
        if self.k is None:
            return {V.atom(rng) if rng.random() < .9 else None: V.anyval(rng, 1) for _ in range(_n(rng))}
        return {self.k.gen(rng): self.v.gen(rng) for _ in range(_n(rng))}

    def _mk(self, rng, d):
        if self.mapping and rng.random() < .5:
            return rng.choice([V.MyMapping, types.MappingProxyType, V.DictSub, collections.UserDict, V.defaulting, V.counter, V.collections.ChainMap])(d)
        return rng.choice([V.DictSub, V.defaulting, V.Missing, V.collections.OrderedDict, V.counter])(d) if rng.random() < .1 else d

    def gen(self, rng):
        return self._mk(rng, self._items(rng))

    def near(self, rng):
        d = self._items(rng)
        k = rng.randrange(8)
        if k == 0:
            return list(d.items())
        if k == 1:
            return V.anyval(rng, 1)
        if k == 2:
            return V.MyMapping(d)
        if self.k is not None:
            if d and k < 6:
                ks = list(d)
                d[ks[-1] if rng.random() < .4 else rng.choice(ks)] = self.v.near(rng)
            else:
                try:
                    d[self.k.near(rng)] = self.v.gen(rng)
                except TypeError:
                    pass
        return self._mk(rng, d)


class TupN(Node):
    """Fixed tuple (possibly empty), variadic tuple or bare Tuple."""
    def __init__(self, rng, mode, elems):
        self.mode, self.elems = mode, elems
        self.hashable = bool(elems) and all(e.hashable for e in elems) or mode == 'fixed' and not elems
        b = rng.random() < .6
        if mode == 'bare':
            self.tp = t.Tuple if b else tuple
        elif mode == 'var':
            self.tp = t.Tuple[elems[0].tp, ...] if b else tuple[elems[0].tp, ...]
        elif not elems:
            self.tp = t.Tuple[()] if b else tuple[()]
        else:
            tps = tuple(e.tp for e in elems)
            self.tp = t.Tuple[tps] if b else tuple[tps]

    def match(self, v):
        if not isinstance(v, tuple):
            return False
        if self.mode == 'bare':
            return True
        if self.mode == 'var':
            return all(self.elems[0].match(x) for x in v)
        return len(v) == len(self.elems) and all(e.match(x) for e, x in zip(self.elems, v))

    def _elems(self, rng):
        if self.mode == 'bare':
            return [V.atom(rng) for _ in range(_n(rng))]
        if self.mode == 'var':
            return [self.elems[0].gen(rng) for _ in range(_n(rng))]
        return [e.gen(rng) for e in self.elems]

    def _tuple(self, rng, elems):
        """Tuples are also instances of named tuple classes and other subclasses."""
        elems = tuple(elems)
        q = rng.random()
        if q < .06:
            return V.named_tuple(len(elems))(*elems)
        return V.TupleSub(elems) if q < .1 else elems

    def gen(self, rng):
        return self._tuple(rng, self._elems(rng))

    def near(self, rng):
        e = self._elems(rng)
        k = rng.randrange(10)
        if k == 0:
            return list(e)
        if k == 1:
            return V.anyval(rng, 1)
        if k == 2:
            return self._tuple(rng, e[:-1])
        if k == 3:
            return self._tuple(rng, e + [V.atom(rng)])
        if k == 4 and self.elems:
            return self._tuple(rng, e + [self.elems[-1].gen(rng)])
        if k == 5:
            return self._tuple(rng, reversed(e))
        if e and self.elems:
            i = len(e) - 1 if rng.random() < .4 else rng.randrange(len(e))
            node = self.elems[0] if self.mode == 'var' else self.elems[i]
            e[i] = node.near(rng)
        return self._tuple(rng, e)


class TD(Node):
    """TypedDict: keys -> (node, required)."""
    def __init__(self, tp, keys, src=''):
        self.tp, self.keys, self.src = tp, keys, src

    def match(self, v):
        if not isinstance(v, dict):
            return False
        for k in v:
            if k not in self.keys:
                return False
        for k, (n, req) in self.keys.items():
            if k in v:
                if not n.match(v[k]):
                    return False
            elif req:
                return False
        return True

    def problems(self, v):
        """Keys to be reported for a dict: missing required, undefined, mismatching."""
        return ({k for k, (n, r) in self.keys.items() if r and k not in v}, {k for k in v if k not in self.keys},
                {k for k, (n, r) in self.keys.items() if k in v and not n.match(v[k])})

    def gen(self, rng, p=.5):
        items = [(k, n.gen(rng)) for k, (n, req) in self.keys.items() if req or rng.random() < p]
        rng.shuffle(items)
        d = dict(items)
        if rng.random() < .06:
            d = rng.choice([V.defaulting, V.DictSub, V.Missing, V.collections.OrderedDict])(d)
        return d

    def near(self, rng):
        d = self.gen(rng)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.randrange(10)
            if k == 0:
                return rng.choice([V.MyMapping(d), list(d), None, types.MappingProxyType(d)])
            tw = [x for x in d if x in TWINS] if k < 4 else None
            if tw:
                x = rng.choice(tw)
                d[TWINS[x]] = d.pop(x)
            elif k <= 2 and d:
                del d[rng.choice(list(d))]
            elif k == 3:
                d[rng.choice(['extra', 'zz', 5, None, ''])] = V.atom(rng)
            elif self.keys:
                kk = rng.choice(list(self.keys))
                d[kk] = self.keys[kk][0].near(rng)
        return d

    def desc(self):
        return self.src or str(self.tp)


# keys of other types with the same text exist for some of them
ODD_NAMES = ['1', 'None', "b'x'", 'a-b', 'class', '', 'a b', '0.5', '(1, 2)', 'True']
TWINS = {'1': 1, 'None': None, "b'x'": b'x', '0.5': .5, '(1, 2)': (1, 2), 'True': True, '': b'', 'a-b': ('a-b',)}

TD_NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'key', 'x']


def gen_td(rng, depth, names_pool=TD_NAMES):
    """A TypedDict class: totality, inheritance, markers, syntax and postponed annotations vary."""
    _counter[0] += 1
    uid = _counter[0]
    future = rng.random() < .4
    modname = f'oblmon_td_{uid}'
    mod = types.ModuleType(modname)
    ns = mod.__dict__
    base_mod = rng.choice(['t', 'te'])
    ns.update(t=t, te=te)
    lines = ['from __future__ import annotations'] if future else []
    keys = {}
    nlev = rng.choice([1, 1, 1, 2, 2, 3])
    names = []
    pool = rng.sample(names_pool, len(names_pool) - 1)
    nn = 0
    functional = nlev == 1 and rng.random() < .25
    bases_used = []
    for lev in range(nlev):
        total = rng.random() < .55
        fields = []
        for _ in range(rng.choice([0, 1, 2, 3] if lev or nlev > 1 else [0, 1, 2, 3, 4])):
            if not pool:
                break
            k = pool.pop()
            if functional and rng.random() < .5:
                k = rng.choice([x for x in ODD_NAMES if x not in keys] or [k])
            node = gen(rng, depth - 1)
            mark = rng.choice([None, None, 'Required', 'NotRequired'])
            nm = f'T{nn}'
            nn += 1
            ns[nm] = node.tp
            ann = nm if not mark else f'te.{mark}[{nm}]' if rng.random() < .5 or not hasattr(t, mark) else f't.{mark}[{nm}]'
            req = total if mark is None else mark == 'Required'
            keys[k] = (node, req)
            fields.append((k, ann))
        name = f'TD{uid}_{lev}'
        if functional:
            lines.append(f'{name} = {base_mod}.TypedDict({name!r}, {{{", ".join(f"{k!r}: {a}" for k, a in fields)}}}, total={total})')
            names.append(name)
            continue
        if lev == 0:
            bases = f'{base_mod}.TypedDict'
        elif lev == 2 and rng.random() < .5:
            # two independent bases
            bases = ', '.join(names)
            bases = bases if f'({names[0]}' not in ''.join(lines) else names[-1]
        elif lev == 1 and nlev == 3 and rng.random() < .5:
            bases = f'{base_mod}.TypedDict'
        else:
            bases = names[-1]
        bases_used.append(bases)
        tt = '' if total and rng.random() < .5 else f', total={total}'
        lines.append(f'class {name}({bases}{tt}):')
        lines += [f'    {k}: {a}' for k, a in fields] or ['    pass']
        names.append(name)
    src = '\n'.join(lines) + '\n'
    if nlev == 3 and bases_used[1].endswith('TypedDict') and bases_used[2] == names[1]:
        # middle class did not inherit the first one: drop the first one's keys
        pass
    ns['__name__'] = modname
    sys.modules[modname] = mod
    exec(compile(src, f'<{modname}>', 'exec', dont_inherit=True), ns)
    tp = ns[names[-1]]
    allowed = set()
    for b in names:
        if ns[b] is tp or b in _td_ancestors(lines, names[-1]):
            allowed |= set(_td_own(lines, b))
    if not functional:
        keys = {k: v for k, v in keys.items() if k in allowed}
    if not future and rng.random() < .5:
        # classes made by a function all have the same name
        tp.__name__ = tp.__qualname__ = 'TD'
        tp.__module__ = 'oblmon_tds'
    node = TD(tp, keys, src)
    node.modname = modname
    return node


def td_of(keys):
    """The TypedDict of {key: (node, required)}."""
    return TD(te.TypedDict('TDof', {k: (te.Required if req else te.NotRequired)[n.tp] for k, (n, req) in keys.items()}), keys)


def _td_own(lines, name):
    out, on = [], False
    for ln in lines:
        if ln.startswith('class '):
            on = ln.startswith(f'class {name}(')
        elif on and ':' in ln:
            out.append(ln.split(':')[0].strip())
    return out


def _td_ancestors(lines, name):
    for ln in lines:
        if ln.startswith(f'class {name}('):
            inner = ln[ln.index('(') + 1:ln.rindex(')')]
            out = []
            for b in inner.split(','):
                b = b.strip()
                if b.startswith('TD'):
                    out.append(b)
                    out += _td_ancestors(lines, b)
            return out
    return []


def release(node):
    """Forget the synthetic modules of TypedDicts (called at the end of a case)."""
    for k in [k for k in sys.modules if k.startswith('oblmon_td_')]:
        del sys.modules[k]


def restart():
    """Restart the numbering of synthetic classes, for reproducible names."""
    _counter[0] = 0


def gen(rng, depth=2, need_hash=False, td=True):
    """A random type expression node."""
    if need_hash:
        k = rng.randrange(8)
        if k < 4 or depth <= 0:
            return cls_node(rng, rng.choice(HASH_CLS))
        if k < 6:
            return Lit(rng)
        if k == 6:
            return UnionN(rng, [gen(rng, depth - 1, True) for _ in range(rng.choice([2, 3]))])
        return TupN(rng, 'fixed', [gen(rng, depth - 1, True) for _ in range(rng.choice([1, 2]))])
    if depth <= 0:
        k = rng.randrange(12)
        if k < 7:
            if rng.random() < .1:
                return Cls(rng.choice(RARE))
            return cls_node(rng, rng.choice([str, int, float, bool, str, int, bytes, V.Vow, type(None), object, numbers.Number, V.Tagged, V.Colour]))
        if k < 9:
            return Lit(rng)
        if k == 9:
            return AnyN()
        return rng.choice([lambda: ListN(rng, None), lambda: SetN(rng, None), lambda: DictN(rng, None, None), lambda: DictN(rng, None, None, True),
                           lambda: TupN(rng, 'bare', []), lambda: SeqN(rng, None), lambda: Cls(frozenset), lambda: Cls(collections.abc.Mapping)])()
    k = rng.randrange(18)
    d = depth - 1
    if k < 3:
        return gen(rng, 0)
    if k < 6:
        ms = [gen(rng, d if rng.random() < .5 else 0) for _ in range(rng.choice([2, 2, 3, 4]))]
        if rng.random() < .3:
            ms.append(cls_node(rng, type(None)))
            if rng.random() < .6:
                ms = [ms[0], ms[-1]]  # Optional
                rng.shuffle(ms)
        return UnionN(rng, ms)
    if k < 8:
        return ListN(rng, gen(rng, d))
    if k < 10:
        return DictN(rng, gen(rng, d, True), gen(rng, d))
    if k == 10:
        return DictN(rng, gen(rng, d, True), gen(rng, d), True)
    if k == 11:
        return SetN(rng, gen(rng, d, True))
    if k < 14:
        return TupN(rng, 'fixed', [gen(rng, d) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
    if k == 14:
        return TupN(rng, 'var', [gen(rng, d)])
    if k == 15:
        return SeqN(rng, gen(rng, d))
    if k == 16 and td:
        return gen_td(rng, depth)
    return ListN(rng, gen(rng, d))


def value_for(node, rng, valid=None):
    """A value; valid True/False/None = aim."""
    if valid is None:
        valid = rng.random() < .5
    if valid:
        return node.gen(rng)
    any_verdict = rng.random() < .3
    for _ in range(4):
        v = node.near(rng)
        if any_verdict or not node.match(v):
            return v
    return V.anyval(rng, 1)
