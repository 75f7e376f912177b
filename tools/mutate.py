#!/usr/bin/env python3
"""Mutation campaign: automatic small changes of the package, each in a scratch copy.

  mutate.py OUTDIR [--sample N] [--seed S] [--jobs J]

Mutants that fail the repository's own tests are discarded; the rest are given to
the checks (short budgets, one lane each).  Writes OUTDIR/results.jsonl; scratch
copies live under OUTDIR and are removed.  Not used by any check.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, threading, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['_list.py', '_set.py', '_dict.py', '_lazy.py', 'abc/_seq.py', 'abc/_set.py', 'abc/_map.py', 'abc/_core.py', 'util/_core.py']
ORDER = {'_list.py': ['C02', 'C05', 'C08', 'C12', 'C14'], '_set.py': ['C03', 'C06', 'C08', 'C14'], '_dict.py': ['C04', 'C07', 'C08', 'C14', 'C12'],
         '_lazy.py': ['C12', 'C10', 'C09', 'C11', 'C08'], 'abc/_seq.py': ['C20', 'C02', 'C05', 'C16'], 'abc/_set.py': ['C20', 'C03', 'C06', 'C16'],
         'abc/_map.py': ['C20', 'C04', 'C07', 'C16'], 'abc/_core.py': ['C20', 'C01', 'C08'], 'util/_core.py': ['C20', 'C02', 'C03', 'C06', 'C16']}
ALL = [f'C{i:02}' for i in range(1, 21)]

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.FloorDiv: ast.Mult, ast.Mult: ast.Add}

def sites(tree):
    "Every mutation as (description, function(tree copy's nodes list))."
    nodes = list(ast.walk(tree))
    skip = set()
    for f in nodes:
        if isinstance(f, ast.FunctionDef) and f.name in ('__str__', '__repr__', 'seqstr', '__json__', 'reprlazy', 'strlazy'):
            skip.update(map(id, ast.walk(f)))
    out = []
    for i, n in enumerate(nodes):
        if id(n) in skip and '--text' not in sys.argv:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for to in CMP.get(type(n.ops[0]), ()):
                out.append((f'{ln}: {type(n.ops[0]).__name__}->{to.__name__}', i, lambda m, to=to: m.ops.__setitem__(0, to())))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((f'{ln}: {type(n.op).__name__}->{BIN[type(n.op)].__name__}', i, lambda m: setattr(m, 'op', BIN[type(m.op)]())))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((f'{ln}: aug {type(n.op).__name__}', i, lambda m: setattr(m, 'op', BIN[type(m.op)]())))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for v in {0: [1, -1], 1: [0, 2], 2: [1, 3], -1: [0]}.get(n.value, [n.value + 1]):
                out.append((f'{ln}: {n.value}->{v}', i, lambda m, v=v: setattr(m, 'value', v)))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((f'{ln}: {n.value}->{not n.value}', i, lambda m: setattr(m, 'value', not m.value)))
        if isinstance(n, ast.BoolOp):
            out.append((f'{ln}: and/or', i, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for k in range(len(n.values)):
                out.append((f'{ln}: drop operand {k}', i, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, ast.Constant(isinstance(m.op, ast.And)))))
        if isinstance(n, (ast.If, ast.IfExp)):
            out.append((f'{ln}: if True', i, lambda m: setattr(m, 'test', ast.Constant(True))))
            out.append((f'{ln}: if False', i, lambda m: setattr(m, 'test', ast.Constant(False))))
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            out.append((f'{ln}: tuple second None', i, lambda m: m.elts.__setitem__(1, ast.Constant(None))))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            for k in range(len(n.args)):
                out.append((f'{ln}: call arg {k} None', i, lambda m, k=k: m.args.__setitem__(k, ast.Constant(None))))
            out.append((f'{ln}: call drop last arg', i, lambda m: m.args.pop()))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            out.append((f'{ln}: swap first two args', i, lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
        for f, v in ast.iter_fields(n):
            # g(x) -> x, x.g() -> x
            for k, c in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(c, ast.Call) and (len(c.args) == 1 and isinstance(c.func, ast.Name) or not c.args and isinstance(c.func, ast.Attribute)) and not c.keywords:
                    def unwrap(m, f=f, k=k, l=isinstance(v, list)):
                        c = getattr(m, f)[k] if l else getattr(m, f)
                        r = c.args[0] if c.args else c.func.value
                        if l:
                            getattr(m, f)[k] = r
                        else:
                            setattr(m, f, r)
                    out.append((f'{c.lineno}: unwrap {ast.unparse(c)[:50]}', i, unwrap))
        if isinstance(n, ast.Attribute) and n.attr in ('_els', '_idx', '_top', '_start', '_thamt', '_phamt', '_version', '_orig'):
            to = {'_els': '_idx', '_idx': '_els', '_top': '_version', '_version': '_top', '_start': '_version', '_orig': '_top'}.get(n.attr)
            if to:
                out.append((f'{ln}: {n.attr}->{to}', i, lambda m, to=to: setattr(m, 'attr', to)))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name):
            for to in ('BaseException', 'Exception', 'ValueError'):
                if n.type.id != to:
                    out.append((f'{ln}: except {n.type.id}->{to}', i, lambda m, to=to: setattr(m.type, 'id', to)))
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, st in enumerate(b):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    out.append((f'{st.lineno}: drop {type(st).__name__}: {ast.unparse(st).splitlines()[0][:60]}', i, lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass())))
                    if isinstance(st, ast.With):
                        out.append((f'{st.lineno}: unwrap with', i, lambda m, f=f, k=k: getattr(m, f).__setitem__(slice(k, k + 1), getattr(m, f)[k].body)))
                    if isinstance(st, ast.Return) and st.value is not None:
                        out.append((f'{st.lineno}: return None', i, lambda m, f=f, k=k: setattr(getattr(m, f)[k], 'value', ast.Constant(None))))
                    if k + 1 < len(b) and not isinstance(st, (ast.Return, ast.FunctionDef)) and not isinstance(b[k + 1], (ast.FunctionDef,)):
                        out.append((f'{st.lineno}: swap with next', i, lambda m, f=f, k=k: getattr(m, f).__setitem__(slice(k, k + 2), [getattr(m, f)[k + 1], getattr(m, f)[k]])))
    return out

def make(src, idx):
    t = ast.parse(src)
    d, i, fn = sites(t)[idx]
    fn(list(ast.walk(t))[i])
    ast.fix_missing_locations(t)
    return d, ast.unparse(t)

def tests(tree):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=f'{tree}:/opt/vp')
    try:
        p = subprocess.run([PY, '-m', 'unittest', '-q', '-f', 'pcollections.test'], cwd=tree, env=env, capture_output=True, timeout=40)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0

def checks(tree, props, runs, wall):
    env = dict(os.environ, PCOLL_REPO=tree, VERIF_LANES='1', VERIF_NOSHRINK='1', VERIF_RUNS=str(runs), VERIF_WALL=str(wall), VERIF_EVIDENCE=tree)
    for p in props:
        try:
            r = subprocess.run([PY, os.path.join(ROOT, 'check.py'), p], env=env, capture_output=True, text=True, timeout=wall * 3 + 200)
        except subprocess.TimeoutExpired:
            return p, 'TIMEOUT'
        if r.returncode != 0:
            return p, (r.stdout.strip().splitlines() or [r.stderr.strip()[-200:]])[-1][:300]
    return None, None

def main():
    out = sys.argv[1]
    arg = lambda n, d: type(d)(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d
    os.makedirs(out, exist_ok=True)
    todo = []
    for f in [x for x in FILES if arg('--file', '') in x]:
        src = open(f'/repo/pcollections/{f}').read()
        for k in range(len(sites(ast.parse(src)))):
            todo.append((f, k))
    random.Random(arg('--seed', 1)).shuffle(todo)
    n = arg('--sample', 0)
    todo = todo[:n] if n else todo
    done = set()
    if os.path.exists(os.path.join(out, 'results.jsonl')):
        done = {(r['file'], r['what']) for r in map(json.loads, open(os.path.join(out, 'results.jsonl')))}
    q, lock = queue.Queue(), threading.Lock()
    for x in todo:
        q.put(x)
    res = open(os.path.join(out, 'results.jsonl'), 'a')
    def work(w):
        tree = os.path.join(out, f'w{w}')
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        while True:
            try:
                f, k = q.get_nowait()
            except queue.Empty:
                break
            src = open(f'/repo/pcollections/{f}').read()
            try:
                d, new = make(src, k)
            except Exception as e:
                continue
            if (f, d) in done:
                continue
            path = os.path.join(tree, 'pcollections', f)
            with open(path, 'w') as g:
                g.write(new)
            r = {'file': f, 'k': k, 'what': d}
            if not tests(tree):
                r['status'] = 'tests'
            else:
                first = ORDER[f]
                p, line = checks(tree, first + [x for x in ALL if x not in first], arg('--runs', 250), arg('--wall', 8))
                if p is None:
                    p, line = checks(tree, first, arg('--runs', 250) * 12, arg('--wall', 8) * 4)
                r['status'] = 'caught' if p else 'SURVIVED'
                r['by'], r['line'] = p, line
            with lock:
                res.write(json.dumps(r) + '\n')
                res.flush()
            with open(path, 'w') as g:
                g.write(src)
        shutil.rmtree(tree, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(arg('--jobs', 8))]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == '__main__':
    main()
