#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package: every check has to stay quiet.

  refactor.py OUTDIR [--only NAMES] [--runs N] [--wall S] [--jobs J] [--props C01,C02]

Each rewrite is applied wherever it can be, in a scratch copy under OUTDIR (removed
afterwards); the repository's tests are run, then the checks.  Not used by any check.
"""
import ast, os, shutil, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import FILES, ALL, ROOT, PY, tests

N = lambda x, c=None: ast.Name(x, c or ast.Load())
COUNT = [0]
def fresh(p):
    COUNT[0] += 1
    return f'_{p}{COUNT[0]}'

class Outline(ast.NodeTransformer):
    "def f(..): body  ->  f calls a helper that has the body"
    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            new += self.split(f, c.name) if isinstance(f, ast.FunctionDef) else [self.visit(f) if isinstance(f, ast.ClassDef) else f]
        c.body = new
        return c
    def visit_Module(self, m):
        new = []
        for f in m.body:
            new += self.split(f, None) if isinstance(f, ast.FunctionDef) else [self.visit_ClassDef(f) if isinstance(f, ast.ClassDef) else f]
        m.body = new
        return m
    def split(self, f, cls):
        # A private class would be caught by name mangling; decorated functions stay.
        if f.decorator_list or f.name in ('__init_subclass__', '__class_getitem__') or (cls and cls.startswith('_')):
            return [f]
        a = f.args
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else []
        h = fresh('helper_')
        args = [N(x.arg) for x in a.posonlyargs + a.args]
        if a.vararg:
            args.append(ast.Starred(N(a.vararg.arg), ast.Load()))
        kws = [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, N(a.kwarg.arg)))
        strip = ast.arguments(a.posonlyargs, a.args, a.vararg, a.kwonlyargs, [None] * len(a.kwonlyargs), a.kwarg, [])
        fn = ast.Attribute(N(cls), h, ast.Load()) if cls else N(h)
        helper = ast.FunctionDef(h, strip, f.body[len(doc):], [N('staticmethod')] if cls else [], None)
        f.body = doc + [ast.Return(ast.Call(fn, args, kws))]
        return [helper, f]

class Temp(ast.NodeTransformer):
    "return X  ->  r = X; return r"
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Name, ast.Constant)):
            return r
        t = fresh('r')
        return [ast.Assign([N(t, ast.Store())], r.value), ast.Return(N(t))]

class Invert(ast.NodeTransformer):
    def visit_If(self, i):
        self.generic_visit(i)
        if i.orelse:
            i.test, i.body, i.orelse = ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body
        return i
    def visit_IfExp(self, i):
        self.generic_visit(i)
        i.test, i.body, i.orelse = ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body
        return i

class While(ast.NodeTransformer):
    "for x in it: body  ->  explicit iterator"
    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse:
            return f
        t = fresh('it')
        get = ast.Try([ast.Assign([f.target], ast.Call(N('next'), [N(t)], []))],
                      [ast.ExceptHandler(N('StopIteration'), None, [ast.Break()])], [], [])
        # The target is unpacked outside of the try.
        v = fresh('x')
        get.body = [ast.Assign([N(v, ast.Store())], ast.Call(N('next'), [N(t)], []))]
        return [ast.Assign([N(t, ast.Store())], ast.Call(N('iter'), [f.iter], [])),
                ast.While(ast.Constant(True), [get, ast.Assign([f.target], N(v))] + f.body, [])]

class Hoist(ast.NodeTransformer):
    "f(g(x)) as a statement, an assignment or a result: the arguments first"
    def do(self, s):
        c = s.value
        if not isinstance(c, ast.Call) or not isinstance(c.func, (ast.Name, ast.Attribute)):
            return s
        q = c.func
        while isinstance(q, ast.Attribute):
            q = q.value
        if not isinstance(q, ast.Name) or q.id == 'super' or c.keywords:
            return s
        if any(isinstance(x, (ast.Starred, ast.GeneratorExp, ast.Yield)) for x in c.args):
            return s
        out = []
        for k, x in enumerate(c.args):
            if not isinstance(x, (ast.Name, ast.Constant)):
                t = fresh('a')
                out.append(ast.Assign([N(t, ast.Store())], x))
                c.args[k] = N(t)
        return out + [s]
    visit_Return = visit_Expr = do
    def visit_Assign(self, s):
        return self.do(s)

class Spell(ast.NodeTransformer):
    "if expressions as statements; de Morgan; x not in y; nested ifs for and"
    def visit_Return(self, r):
        if isinstance(r.value, ast.IfExp):
            v = r.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return r
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and all(isinstance(t, ast.Name) for t in s.targets):
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])
        return s
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse and isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.And):
            body = i.body
            for t in reversed(i.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        if isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.Or):
            i.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), v) for v in i.test.values]))
        return i
    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.NotIn, ast.IsNot)):
            c.ops[0] = ast.In() if isinstance(c.ops[0], ast.NotIn) else ast.Is()
            return ast.UnaryOp(ast.Not(), c)
        return c

class Noise(ast.NodeTransformer):
    "statements that do nothing at the start and before every return"
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = ast.parse('_noise = None\nif _noise:\n    _noise = ()').body
        return f
    def visit_Return(self, r):
        return ast.parse('_noise = [None][0]').body + [r]


KINDS = {'unparse': [], 'outline': [Outline], 'temp': [Temp], 'invert': [Invert], 'while': [While], 'hoist': [Hoist], 'spell': [Spell], 'noise': [Noise],
         'outline2': [Outline, Outline, Hoist], 'all': [Spell, Invert, Hoist, Temp, While, Noise, Outline]}

def rewrite(src, kinds):
    tree = ast.parse(src)
    for k in kinds:
        tree = ast.fix_missing_locations(k().visit(tree))
    return ast.unparse(ast.fix_missing_locations(tree)) + '\n'

def main():
    out = sys.argv[1]
    arg = lambda n, d: type(d)(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d
    props = arg('--props', ','.join(ALL)).split(',')
    q, lock = queue.Queue(), threading.Lock()
    for name in arg('--only', ','.join(KINDS)).split(','):
        tree = os.path.join(out, name)
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        for f in FILES:
            p = os.path.join(tree, 'pcollections', f)
            with open(p) as g:
                src = g.read()
            with open(p, 'w') as g:
                g.write(rewrite(src, KINDS[name]))
        if not tests(tree):
            print(name, 'FAILS THE TESTS', flush=True)
            continue
        for p in props:
            q.put((name, tree, p))
    def work():
        while True:
            try:
                name, tree, p = q.get_nowait()
            except queue.Empty:
                return
            wall = arg('--wall', 60)
            ev = os.path.join(tree, 'ev')
            os.makedirs(ev, exist_ok=True)
            env = dict(os.environ, PCOLL_REPO=tree, VERIF_LANES='1', VERIF_NOSHRINK='1', VERIF_RUNS=str(arg('--runs', 1500)), VERIF_WALL=str(wall), VERIF_EVIDENCE=ev)
            r = subprocess.run([PY, os.path.join(ROOT, 'check.py'), p], env=env, capture_output=True, text=True)
            with lock:
                print(name, p, r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0 if r.returncode else -1][:400], flush=True)
    ts = [threading.Thread(target=work) for _ in range(arg('--jobs', 8))]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == '__main__':
    main()
