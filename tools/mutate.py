"""Development: AST mutants of /repo/oblate; those passing the tests are run through the checks.

mutate.py OUT.jsonl [--files a,b] [--sample N] [--seed S]
"""
import ast, copy, json, os, random, shutil, subprocess, sys, argparse, concurrent.futures as cf
PY = '/opt/venv/bin/python'
ORDER = [1, 12, 9, 14, 10, 24, 2, 26, 11, 17, 15, 5, 13, 4, 6, 7, 8, 3, 21, 22, 25, 23, 16, 20, 18, 19, 27, 28]
SCALE = float(os.environ.get('MUT_SCALE', '.25'))
QUICK = {}
GEN = Mut = None
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


class Mut(ast.NodeTransformer):
    """Applies the n-th mutation."""
    def __init__(self, n):
        self.n, self.k, self.desc = n, -1, None

    def hit(self, node, desc):
        self.k += 1
        if self.k == self.n:
            self.desc = f'{getattr(node, "lineno", "?")}: {desc}'
            return True
        return False

    def visit_FunctionDef(self, node):
        if node.name in ('__repr__',) or any(isinstance(d, ast.Name) and d.id == 'overload' for d in node.decorator_list):
            return node
        node.body = self.block(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        return node

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue, ast.AnnAssign)) and not (isinstance(s, ast.AnnAssign) and s.value is None):
                if self.hit(s, f'delete `{ast.unparse(s)[:90]}`'):
                    out.append(ast.copy_location(ast.Pass(), s))
                    continue
            if isinstance(s, ast.Return) and s.value is not None and self.hit(s, f'return None for `{ast.unparse(s)[:90]}`'):
                out.append(ast.copy_location(ast.Return(value=None), s))
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(node, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                setattr(node, field, self.block(v))
        for field, old in ast.iter_fields(node):
            if field in ('body', 'orelse', 'finalbody') and isinstance(old, list) and old and isinstance(old[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                continue
            if field in ('annotation', 'returns', 'decorator_list', 'bases'):
                continue
            if isinstance(old, list):
                setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_If(self, node):
        if ast.unparse(node.test) in ('TYPE_CHECKING', 't.TYPE_CHECKING'):
            return node
        if self.hit(node, f'if not ({ast.unparse(node.test)[:80]})'):
            node.test = ast.UnaryOp(ast.Not(), node.test)
        if self.hit(node, f'if True for {ast.unparse(node.test)[:80]}'):
            node.test = ast.Constant(True)
        if self.hit(node, f'if False for {ast.unparse(node.test)[:80]}'):
            node.test = ast.Constant(False)
        return self.generic_visit(node)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.hit(node, f'first branch of {ast.unparse(node)[:80]}'):
            return node.body
        if self.hit(node, f'second branch of {ast.unparse(node)[:80]}'):
            return node.orelse
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        for i in range(len(node.values)):
            if self.hit(node, f'drop operand {i} of {ast.unparse(node)[:90]}'):
                vs = node.values[:i] + node.values[i + 1:]
                return vs[0] if len(vs) == 1 else ast.BoolOp(node.op, vs)
        if self.hit(node, f'and/or swap in {ast.unparse(node)[:90]}'):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        return node

    SW = {ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Is: [ast.Eq], ast.IsNot: [ast.NotEq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}

    def visit_Compare(self, node):
        self.generic_visit(node)
        for sw in self.SW.get(type(node.ops[0]), []):
            if self.hit(node, f'{type(node.ops[0]).__name__}->{sw.__name__} in {ast.unparse(node)[:80]}'):
                node.ops[0] = sw()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and self.hit(node, f'+- in {ast.unparse(node)[:60]}'):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        return node

    def visit_Constant(self, node):
        if node.value is True or node.value is False:
            if self.hit(node, f'{node.value} flipped'):
                return ast.copy_location(ast.Constant(not node.value), node)
        elif isinstance(node.value, int) and self.hit(node, f'{node.value}+1'):
            return ast.copy_location(ast.Constant(node.value + 1), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'copy' and not node.args and self.hit(node, f'no copy: {ast.unparse(node)[:60]}'):
            return f.value
        if isinstance(f, ast.Name) and f.id in ('set', 'dict', 'list', 'tuple', 'str') and len(node.args) == 1 and self.hit(node, f'no {f.id}(): {ast.unparse(node)[:60]}'):
            return node.args[0]
        for i in range(len(node.keywords)):
            if node.keywords[i].arg and self.hit(node, f'drop keyword {node.keywords[i].arg} in {ast.unparse(node)[:70]}'):
                node.keywords.pop(i)
                return node
        if len(node.args) > 1 and isinstance(f, (ast.Attribute, ast.Name)) and not any(isinstance(a, ast.Starred) for a in node.args):
            if self.hit(node, f'drop last argument in {ast.unparse(node)[:70]}'):
                node.args.pop()
                return node
        return node

    def visit_ExceptHandler(self, node):
        if isinstance(node.type, ast.Tuple):
            for i in range(len(node.type.elts)):
                if self.hit(node, f'except without {ast.unparse(node.type.elts[i])}'):
                    node.type.elts.pop(i)
                    break
        elif node.type is not None:
            if ast.unparse(node.type) != 'Exception' and self.hit(node, f'except Exception for {ast.unparse(node.type)}'):
                node.type = ast.Name('Exception', ast.Load())
            if ast.unparse(node.type) == 'Exception' and self.hit(node, 'except ValueError for Exception'):
                node.type = ast.Name('ValueError', ast.Load())
        return self.generic_visit(node)

    def visit_Try(self, node):
        if node.finalbody and self.hit(node, 'finally only on success'):
            new = ast.Try(node.body, node.handlers, node.orelse, []) if node.handlers else None
            stm = ([new] if new else node.body) + node.finalbody
            return stm
        return self.generic_visit(node)

    visit_TryStar = visit_Try


GROUPS = [['load_key', 'dump_key', '_name'], ['_validators', '_raw_validators'], ['__fields__', '__load_fields__'], ['errors', 'messages'], ['true_values', 'false_values'], ['_load_key', '_dump_key'],
          ['none', 'required', 'frozen'], ['value_load', 'value_dump'], ['LoadContext', 'DumpContext'], ['current_schema', 'current_context', 'current_field_key'], ['ignore_extra', 'ignore_missing'], ['min', 'max', 'exact'],
          ['append', 'insert'], ['match', 'fullmatch', 'search'], ['items', 'keys', 'values'], ['update', 'setdefault'], ['ValueError', 'TypeError', 'RuntimeError'], ['list', 'tuple', 'set'], ['get', 'pop'],
          ['error', 'self', 'err'], ['lb', 'ub'], ['_lb', '_ub'], ['_min', '_max'], ['raw', 'strict'], ['key', 'name', '_name', 'field'], ['value', 'final_value', 'raw_value'], ['FieldError', 'ValidationError']]


class Mut2(Mut):
    """Second generation: confused names, moved and guarded statements, iteration cut short, shared objects."""
    names = ()

    def visit_FunctionDef(self, node):
        if node.name in ('__repr__',) or any(isinstance(d, ast.Name) and d.id == 'overload' for d in node.decorator_list):
            return node
        old, self.names = self.names, sorted({a.arg for a in node.args.args + node.args.kwonlyargs} | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        node.body = self.block(node.body)
        if not node.decorator_list and node.name != '__init__' and len(node.body) > 1 and self.hit(node, f'memoized {node.name}'):
            node.decorator_list = [ast.parse('__import__("functools").lru_cache(maxsize=64)', mode='eval').body]
        self.names = old
        return node

    def block(self, body):
        body = list(body)
        for i in range(len(body) - 1):
            if isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant):
                continue
            if not isinstance(body[i + 1], (ast.Return, ast.Raise)) and self.hit(body[i], f'swapped `{ast.unparse(body[i])[:50]}` and `{ast.unparse(body[i + 1])[:50]}`'):
                body[i], body[i + 1] = body[i + 1], body[i]
                return body
        out = []
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
                used = sorted({n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.names and n.id != 'self'})
                for u in used[:3]:
                    if self.hit(s, f'only if {u}: `{ast.unparse(s)[:80]}`'):
                        s = ast.If(ast.Name(u, ast.Load()), [s], [])
                        break
            r = self.visit(s)
            out.extend(r) if isinstance(r, list) else out.append(r)
        return out

    def visit_For(self, node):
        for how, src in (('skips the first', 'list({})[1:]'), ('skips the last', 'list({})[:-1]'), ('is reversed', 'list({})[::-1]'), ('stops at 8', 'list({})[:8]')):
            if self.hit(node, f'loop {how}: {ast.unparse(node.iter)[:60]}'):
                node.iter = ast.parse(src.format(ast.unparse(node.iter)), mode='eval').body
                return node
        if self.hit(node, f'loop over {ast.unparse(node.iter)[:60]} breaks after a pass'):
            node.body = node.body + [ast.Break()]
            return node
        if self.hit(node, f'last statement after loop over {ast.unparse(node.iter)[:60]}') and len(node.body) > 1:
            last = node.body.pop()
            return [node, last]
        return self.generic_visit(node)

    def visit_If(self, node):
        if ast.unparse(node.test) in ('TYPE_CHECKING', 't.TYPE_CHECKING'):
            return node
        used = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.names and n.id != 'self'})
        for u in used[:4]:
            if self.hit(node, f'if ({ast.unparse(node.test)[:60]}) and {u}'):
                node.test = ast.BoolOp(ast.And(), [node.test, ast.Name(u, ast.Load())])
                return node
            if self.hit(node, f'if ({ast.unparse(node.test)[:60]}) or not {u}'):
                node.test = ast.BoolOp(ast.Or(), [node.test, ast.UnaryOp(ast.Not(), ast.Name(u, ast.Load()))])
                return node
        return self.generic_visit(node)

    def visit_IfExp(self, node):
        return self.generic_visit(node)

    visit_BoolOp = visit_IfExp

    def visit_BinOp(self, node):
        return self.generic_visit(node)

    def visit_Compare(self, node):
        if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and self.hit(node, f'truth for {ast.unparse(node)[:60]}'):
            return ast.UnaryOp(ast.Not(), node.left) if isinstance(node.ops[0], ast.Is) else node.left
        if isinstance(node.ops[0], (ast.In, ast.NotIn)) and self.hit(node, f'membership by text in {ast.unparse(node)[:60]}'):
            node.left = ast.parse(f'str({ast.unparse(node.left)})', mode='eval').body
            return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'isinstance' and len(node.args) == 2:
            if self.hit(node, f'exact type for {ast.unparse(node)[:70]}'):
                return ast.parse(f'(type({ast.unparse(node.args[0])}) is {ast.unparse(node.args[1])})', mode='eval').body
        if isinstance(f, ast.Name) and f.id == 'issubclass' and self.hit(node, f'same class for {ast.unparse(node)[:70]}'):
            return ast.parse(f'({ast.unparse(node.args[0])} is {ast.unparse(node.args[1])})', mode='eval').body
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and not (isinstance(f, ast.Name) and f.id in ('cast', 'isinstance', 'issubclass')) and self.hit(node, f'swapped arguments of {ast.unparse(node)[:60]}'):
            node.args.reverse()
            return node
        for kw in node.keywords:
            if kw.arg and isinstance(kw.value, ast.Name) and self.hit(node, f'keyword {kw.arg} negated in {ast.unparse(node)[:60]}'):
                kw.value = ast.UnaryOp(ast.Not(), kw.value)
                return node
        return self.generic_visit(node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load):
            for g in GROUPS:
                if node.id in g:
                    for o in g:
                        if o != node.id and (o in self.names or node.id not in self.names) and self.hit(node, f'{o} for {node.id}'):
                            return ast.Name(o, node.ctx)
        return node

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Load):
            for g in GROUPS:
                if node.attr in g:
                    for o in g:
                        if o != node.attr and self.hit(node, f'.{o} for {ast.unparse(node)[-40:]}'):
                            node.attr = o
                            return node
        return self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        return self.generic_visit(node)

    def visit_Try(self, node):
        if len(node.body) == 1 and node.orelse == [] and self.hit(node, 'handler covers nothing'):
            return node.body
        return self.generic_visit(node)


def count(tree):
    m = GEN(-5)
    m.visit(copy.deepcopy(tree))
    return m.k + 1


def sh(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def one(job):
    f, n, wid = job
    src = open(f'/repo/oblate/{f}').read()
    tree = ast.parse(src)
    m = GEN(n)
    tree = ast.fix_missing_locations(m.visit(tree))
    new = ast.unparse(tree)
    d = f'/tmp/mut/{os.getpid()}'
    if not os.path.isdir(d):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache', '.git', 'docs'))
        os.makedirs(d + '/ev', exist_ok=True)
    base = f'{d}/oblate/{f}'
    open(base, 'w').write(new)
    env = dict(os.environ, PYTHONPATH=d, OBLMON_REPO=d, OBLMON_EVIDENCE=d + '/ev', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1')
    try:
        t = sh(f'{PY} -m pytest -q -x tests -p no:cacheprovider', d, env, 60)
        if t is None or t.returncode != 0:
            return dict(file=f, n=n, desc=m.desc, tests='killed')
        errs = []
        for c in ORDER:
            cases = max(60, int(QUICK[c] * SCALE))
            r = sh(f'{PY} run.py C{c:02} --tier quick --jobs 1 --cases {cases}', ROOT, env, 400)
            if r is None:
                errs.append(f'C{c:02} timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return dict(file=f, n=n, desc=m.desc, tests='pass', by=f'C{c:02}', errs=errs)
            if r.returncode not in (0,):
                errs.append(f'C{c:02} rc{r.returncode} {r.stdout[-150:]} {r.stderr[-150:]}')
        return dict(file=f, n=n, desc=m.desc, tests='pass', by=None, errs=errs)
    finally:
        open(base, 'w').write(src)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--second', action='store_true')
    a = ap.parse_args()
    global GEN
    GEN = Mut2 if a.second else Mut
    sys.path.insert(0, ROOT)
    import importlib
    for c in ORDER:
        src = open(f'{ROOT}/oblmon/checks/c{c:02}.py').read()
        for l in src.splitlines():
            if l.startswith('QUICK, THOROUGH ='):
                QUICK[c] = int(l.split('=')[1].split(',')[0])
    files = a.files.split(',') if a.files else ['schema.py', 'fields/base.py', 'exceptions.py', 'contexts.py', 'type_validation.py', 'validate.py', 'configs.py', 'fields/nesting.py', 'fields/primitive.py', 'fields/structs.py', 'fields/typings.py', 'utils.py']
    jobs = []
    for f in files:
        k = count(ast.parse(open(f'/repo/oblate/{f}').read()))
        jobs += [(f, n, 0) for n in range(k)]
    if a.only:
        want = {tuple(x.split(':')) for x in a.only.split(',')}
        jobs = [j for j in jobs if (j[0], str(j[1])) in want]
    if a.sample:
        random.Random(a.seed).shuffle(jobs)
        jobs = jobs[:a.sample]
    print(len(jobs), 'mutants', flush=True)
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    with open(a.out, 'w') as o, cf.ProcessPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + '\n')
            o.flush()
            if r['tests'] == 'pass' and not r['by']:
                print('SURVIVES', r, flush=True)
    shutil.rmtree('/tmp/mut', ignore_errors=True)


main()
