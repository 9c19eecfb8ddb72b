"""tools_mut.py: mutation sweep (development only).  python3 tools_mut.py gen <per_function> <seed> > list ; python3 tools_mut.py run <list> <out>
Needs the function maps written with VERIF_FNMAP=/tmp/fnmap."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import copy

REPO = '/repo'
MAP = '/tmp/fnmap'
FILES = ['node', 'graph', 'tensor', 'utils', 'model', '__init__', '__main__', 'fusion', 'quantization', 'llm', 'serialization']


def fnmap():
    m = {}
    for f in sorted(os.listdir(MAP)):
        for ob, (fns, wall) in json.load(open(f'{MAP}/{f}')).items():
            for fn in fns:
                m.setdefault(fn, []).append((f[:-5], ob, wall))
    return m


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv}


def variants(n):
    """mutated copies of node n with a label"""
    out = []

    def put(lab, f):
        c = copy.deepcopy(n)
        r = f(c)
        out.append((lab, r if r is not None else c))
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        put('cmp', lambda c: c.ops.__setitem__(0, CMP[type(n.ops[0])]()))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        put('bin', lambda c: setattr(c, 'op', BIN[type(n.op)]()))
    if isinstance(n, ast.BoolOp):
        put('bool', lambda c: setattr(c, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        put('const', lambda c: setattr(c, 'value', not n.value))
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
        put('const', lambda c: setattr(c, 'value', n.value + 1))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        put('un', lambda c: c.operand)
    if isinstance(n, (ast.If, ast.IfExp)):
        put('ifT', lambda c: setattr(c, 'test', ast.Constant(True)))
        put('ifF', lambda c: setattr(c, 'test', ast.Constant(False)))
    if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        out.append(('del', ast.Pass()))
    if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
        out.append(('del', ast.Pass()))
    if isinstance(n, (ast.Continue, ast.Break)):
        out.append(('del', ast.Pass()))
    if isinstance(n, ast.Name) and n.id in ('min', 'max') and isinstance(n.ctx, ast.Load):
        put('minmax', lambda c: setattr(c, 'id', 'max' if n.id == 'min' else 'min'))
    return out


def functions(tree):
    """(qualname, node) of every function"""
    res = []

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                res.append(('.'.join(q + [c.name]), c))
                walk(c, q + [c.name, '<locals>'])
            elif isinstance(c, ast.ClassDef):
                walk(c, q + [c.name])
            else:
                walk(c, q)
    walk(tree, [])
    return res


def own(fn):
    """nodes of a function without nested functions' bodies"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('log', 'warn'):
            continue
        if isinstance(n, (ast.Raise, ast.Assert)):
            continue
        yield n
        st += list(ast.iter_child_nodes(n))


def gen(per, seed):
    rng = random.Random(seed)
    m = fnmap()
    res = []
    for f in FILES:
        path = f'onnx_tool/{f}.py'
        src = open(f'{REPO}/{path}').read()
        lines = src.split('\n')
        for q, fn in functions(ast.parse(src)):
            key = f'{path}:{q}'
            if key not in m:
                continue
            cand = []
            for n in own(fn):
                if not hasattr(n, 'lineno'):
                    continue
                for lab, v in variants(n):
                    cand.append((n, lab, v))
            rng.shuffle(cand)
            for n, lab, v in cand[:per]:
                seg = ast.get_source_segment(src, n)
                if isinstance(n, (ast.If,)):
                    t = n.test
                    new = ast.unparse(v.test)
                    a, b, c, d = t.lineno, t.col_offset, t.end_lineno, t.end_col_offset
                else:
                    new = ast.unparse(v)
                    if not isinstance(n, ast.stmt):
                        new = '(' + new + ')'
                    a, b, c, d = n.lineno, n.col_offset, n.end_lineno, n.end_col_offset
                res.append({'file': path, 'fn': key, 'lab': lab, 'at': [a, b, c, d], 'new': new, 'old': seg[:160] if seg else ''})
    rng.shuffle(res)
    return res


def apply(src, mu):
    a, b, c, d = mu['at']
    lines = src.encode().split(b'\n')
    pre, post = lines[a - 1][:b], lines[c - 1][d:]
    return b'\n'.join(lines[:a - 1] + [pre + mu['new'].encode() + post] + lines[c:]).decode()


def run_one(i, mu, slot, m):
    d = f'/tmp/mut/{slot}'
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', REPO + '/', d + '/'], check=True)
    p = f'{d}/{mu["file"]}'
    s = apply(open(p).read(), mu)
    try:
        ast.parse(s)
    except SyntaxError:
        return 'syntax'
    open(p, 'w').write(s)
    per = {}
    for prop, ob, wall in m[mu['fn']]:
        per.setdefault(prop, []).append((wall, ob))
    order = sorted(per, key=lambda k: min(sum(sorted(w for w, _ in per[k])[:12]), 1e9))
    env = dict(os.environ, VERIF_REPO=d, VERIF_FIRST='1', VERIF_JOBS='4', VERIF_NOEV='1')
    tr = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import onnx_tool'], cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True)
    if tr.returncode:
        return 'import'
    # first a cheap round, then everything
    for rnd in (0, 1):
        for prop in order:
            obs = sorted(per[prop])
            pick = obs if rnd else random.Random(1).sample(obs, min(12, len(obs)))
            if rnd and len(obs) <= 12:
                continue
            lf = f'/tmp/mut/list{slot}.json'
            json.dump([o for _, o in pick], open(lf, 'w'))
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '/verif/run.py', prop, '--budget', '60'], capture_output=True, text=True,
                               env=dict(env, VERIF_ONLY_LIST=lf))
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return f'caught {prop}'
            if r.returncode not in (0, 1):
                return f'crash {prop} {r.stderr[-200:]}'
            if rnd == 1 and 'budget' in mu:
                break
    return 'SURVIVED ' + ','.join(order)


def main():
    if sys.argv[1] == 'gen':
        for x in gen(int(sys.argv[2]), int(sys.argv[3])):
            print(json.dumps(x))
    elif sys.argv[1] == 'gaps':
        m = fnmap()
        for f in FILES:
            path = f'onnx_tool/{f}.py'
            for q, fn in functions(ast.parse(open(f'{REPO}/{path}').read())):
                if f'{path}:{q}' not in m:
                    print(f'{path}:{fn.lineno} {q}')
    else:
        m = fnmap()
        todo = [json.loads(l) for l in open(sys.argv[2])]
        k, n = int(sys.argv[4]), int(sys.argv[5])
        os.makedirs('/tmp/mut', exist_ok=True)
        out = open(sys.argv[3], 'a')
        for i, mu in enumerate(todo):
            if i % n != k:
                continue
            try:
                r = run_one(i, mu, k, m)
            except Exception as e:
                r = f'tool {e}'
            out.write(json.dumps(dict(mu, i=i, result=r)) + '\n')
            out.flush()


main()
