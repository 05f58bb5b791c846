"""C11: typed dictionaries: verdict and one message per problem, against the declared types."""
import typing as t

import oblate
from oblate import fields as F

from .. import texpr, values as V
from ..core import check

ID = 'C11'
QUICK, THOROUGH = 7000, 180000
RULE = ('TypedDicts with 1-3 levels of inheritance and mixed totality, Required/NotRequired markers (typing and typing_extensions), postponed annotations, functional syntax, '
        'self references; dictionaries with every combination of missing, undefined and mismatching keys; distinct by (totalities, markers, problem counts, entry point)')
NEED = ['accepted', 'missing', 'undefined', 'mismatch', 'combined', 'optional_absent', 'marked_mismatch', 'validate_types', 'field', 'recursive', 'nested_td', 'not_a_dict', 'empty', 'many_undefined', 'same_text', 'many_mismatches']

NAMES = ['qalpha', 'qbeta', 'qgamma', 'qdelta', 'qepsilon', 'qzeta', 'qeta', 'qtheta', 'qiota', 'qkappa']


def assign_messages(problems, msgs):
    """True if the messages can be distributed over the problem keys, one each."""
    problems = list(problems)
    if len(problems) != len(msgs):
        return False
    owner = {}

    def aug(p, seen):
        for j, m in enumerate(msgs):
            if j not in seen and (str(p) in m or repr(p) in m):
                seen.add(j)
                if j not in owner or aug(owner[j], seen):
                    owner[j] = p
                    return True
        return False
    return all(aug(p, set()) for p in problems)


class Rec(texpr.TD):
    def __init__(self, rng):
        import sys
        import types
        texpr._counter[0] += 1
        name = f'oblmon_td_{texpr._counter[0]}r'
        mod = types.ModuleType(name)
        sys.modules[name] = mod
        src = ('from __future__ import annotations\n' if rng.random() < .5 else '') + '''
import typing as t
import typing_extensions as te
class Node(te.TypedDict, total=%s):
    qlabel: str
    qnext: te.%s["t.Optional[Node]"]
    qkids: te.%s["t.List[Node]"]
'''
        self.total = rng.random() < .5
        m1, m2 = rng.choice(['Required', 'NotRequired']), 'NotRequired'
        # typing caches forward references by their text, so every class has its own name
        node = f'Node{texpr._counter[0]}'
        src = (src % (self.total, m1, m2)).replace('Node', node)
        exec(compile(src, name, 'exec', dont_inherit=True), mod.__dict__)

        class Opt(texpr.Node):
            def match(s, v):
                return v is None or self.match(v)

            def gen(s, r):
                return None if r.random() < .6 else self.gen(r)

            def near(s, r):
                return r.choice([5, {}, {'qlabel': 1, 'qnext': None}, {'qlabel': 'x', 'qnext': None}, None])

        class Lst(texpr.Node):
            def match(s, v):
                return isinstance(v, list) and all(self.match(x) for x in v)

            def gen(s, r):
                return [self.gen(r) for _ in range(r.choice([0, 0, 0, 1]))]

            def near(s, r):
                return r.choice([[{}], [5], ({'qlabel': 'x'},), [{'qlabel': 'a', 'qnext': None}, {'qlabel': 'a', 'qnext': 3}]])
        super().__init__(getattr(mod, node), {'qlabel': (texpr.Cls(str), self.total), 'qnext': (Opt(), m1 == 'Required'), 'qkids': (Lst(), m2 == 'Required')}, src)


def case(rng, mon, i, tier):
    if rng.random() < .08:
        n = Rec(rng)
        mon.count('recursive')
    else:
        n = texpr.gen_td(rng, rng.choice([1, 1, 2]), NAMES)
    mon.count('empty', not n.keys)
    S = type(oblate.Schema)('S', (oblate.Schema,), {'v': F.TypedDict(n.tp, required=False), 'w': F.TypeExpr(n.tp, required=False), 'l': F.List(n.tp, required=False),
                                                   'd': F.Dict(str, n.tp, required=False), '__module__': 'm'})
    mon.count('nested_td', any(isinstance(k[0], texpr.TD) for k in n.keys.values()))
    for _ in range(rng.choice([4, 6])):
        v = n.gen(rng, rng.choice([0, .5, 1]))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            q = rng.random()
            tw = [x for x in v if x in texpr.TWINS] if rng.random() < .6 else None
            if tw:
                x = rng.choice(tw)
                v[texpr.TWINS[x]] = v.pop(x) if rng.random() < .7 else v[x]
                mon.count('same_text')
            elif q < .35 and v:
                del v[rng.choice(list(v))]
            elif q < .4 and v:
                # another spelling of a key that is there
                x = rng.choice(list(v))
                y = rng.choice([str.lower, str.upper, str.title, str.swapcase, lambda s: s + ' ', lambda s: s[:-1], lambda s: '_' + s])(str(x))
                if y not in v and y not in n.keys:
                    v[y] = v.pop(x)
                    mon.count('respelled')
            elif q < .5:
                v[rng.choice(['qextra', 'zz9', 57, None, 'QALPHA', ('t', 1), '_private', '__extra_items__', '_', '', 'qextra ', '$x', '_57', True, b'qextra'])] = V.atom(rng)
            elif n.keys:
                k = rng.choice(list(n.keys))
                v[k] = n.keys[k][0].near(rng)
        if n.keys and rng.random() < .1:
            # nearly everything is wrong
            for k in list(n.keys):
                if rng.random() < .9:
                    v[k] = n.keys[k][0].near(rng)
            if rng.random() < .3:
                v.update({f'zz{q}': q for q in range(rng.choice([0, 3]))})
        if rng.random() < .04:
            v.update({f'zz{q}': q for q in range(rng.choice([12, 40]))})
            mon.count('many_undefined')
        if rng.random() < .1:
            v = rng.choice([V.DictSub, V.defaulting, V.Missing, V.collections.OrderedDict])(v)
        if rng.random() < .03:
            v = rng.choice([V.MyMapping(v), list(v), 5, 'abc', None])
        before = V.canon(v)
        want = n.match(v)
        info = dict(td=n.src, value=repr(v)[:1500], expected=want)
        if isinstance(v, dict):
            miss, undef, bad = n.problems(v)
            probs = list(miss) + list(undef) + list(bad)
            check(bool(probs) != want, 'harness: reference inconsistent', **info)
        else:
            mon.count('not_a_dict')
            probs = None
        info['problems'] = probs

        def judge(ok, msgs, how):
            check(ok == want, f'{how} {"accepts" if ok else "rejects"} a typed dictionary that {"matches" if want else "does not match"}', msgs=msgs, **info)
            if not ok:
                check(isinstance(msgs, list) and msgs and all(isinstance(m, str) and m for m in msgs), f'{how}: no messages', msgs=msgs, **info)
                if probs is not None:
                    check(assign_messages(probs, msgs), f'{how}: the messages are not one per offending key', msgs=msgs, **info)
        try:
            oblate.validate_types({'k': n.tp}, {'k': v})
        except oblate.TypeValidationError as e:
            judge(False, e.errors.get('k'), 'validate_types')
        else:
            judge(True, None, 'validate_types')
        mon.count('validate_types')
        if v is not None:
            for name in ('v', 'w'):
                path = rng.choice(['construct', 'update', 'assign'])
                try:
                    s = S({name: v} if path == 'construct' else {})
                    if path == 'update':
                        s.update({name: v})
                    elif path == 'assign':
                        setattr(s, name, v)
                except oblate.ValidationError as e:
                    judge(False, e.raw().get(name), f'{type(getattr(S, name)).__name__} field on {path}')
                else:
                    judge(True, None, f'{type(getattr(S, name)).__name__} field on {path}')
                    check(s.get_value_for(name) is v, 'typed dictionary not stored unchanged', **info)
                mon.count('field')
        # inside containers, after a valid one
        g = n.gen(rng)
        for name, x in (('l', [g, v]), ('d', {'p': g, 'q': v})):
            try:
                S({name: x})
            except oblate.ValidationError:
                check(not want, 'a matching typed dictionary is rejected inside a container', **info)
            else:
                check(want, 'a mismatching typed dictionary is accepted inside a container', **info)
        check(V.canon(v) == before, 'the dictionary was changed', **info)
        mon.count('accepted' if want else 'rejected')
        if probs is not None:
            mon.count('missing', bool(miss))
            mon.count('undefined', bool(undef))
            mon.count('mismatch', bool(bad))
            mon.count('many_mismatches', len(bad) > 4)
            mon.count('combined', bool(miss) + bool(undef) + bool(bad) > 1)
            mon.count('optional_absent', want and any(k not in v for k in n.keys))
            mon.count('marked_mismatch', any(not n.keys[k][1] for k in bad))
            mon.seen(tuple(sorted((r, type(x).__name__) for x, r in n.keys.values())), len(miss), len(undef), len(bad))
        mon.sample(f'{n.src!r} <- {v!r}: {probs}')
    texpr.release(n)
