"""C25 - serialized files hold the shape engine, graph and memory plan, to the byte."""
import os
import numpy as np
from symex import sbytes
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch

f32, f16, f64, i64, i32, u8, i8 = np.float32, np.float16, np.float64, np.int64, np.int32, np.uint8, np.int8
INT, FLOAT, STR, FP16, INT8, UINT8, INT64 = 0, 1, 2, 3, 5, 6, 9
CODE = {f32: FLOAT, f16: FP16, i32: INT, i8: INT8, u8: UINT8, i64: INT64}
LO, HI = -(1 << 31), (1 << 31) - 1


def written(E, fn, *a, where='m'):
    """reader over the file fn writes, None when it refuses"""
    sbytes.FILES.clear()
    with scratch(E) as d:
        p = os.path.join(d, where)
        r = E.call(fn, *a, p)
        if not r.ok:
            return None, r.exc
        if not os.path.exists(p):
            E.fail('no file')
            return None, None
        data = sbytes.FILES[p] if E.sym and p in sbytes.FILES else open(p, 'rb').read()
    E.observe('length', len(data))
    return sbytes.Reader(data), None


def text(E, R, want, what):
    E.check(R.text() == want.encode('utf-8') if isinstance(want, str) else R.text() == want, what)


def f32eq(E, got, want):
    if got is None:
        return False
    if E.sym:
        return E.eq(got, want)
    return got == float(np.float32(want)) or abs(got - float(want)) <= 1e-6 * abs(float(want))


def guarded(E, fn, what):
    try:
        fn()
    except sbytes.Truncated:
        E.fail(f'{what}: the file ends too early')


def read_engine(E, R, variables, desc, exprs):
    def go():
        E.check(R.int() == len(variables), 'engine: number of variables')
        for v in variables:
            text(E, R, v, 'engine: name of a variable')
        E.check(R.int() == len(desc), 'engine: number of tensors')
        for name, dims in desc.items():
            text(E, R, name, 'engine: name of a tensor')
            E.check(R.int() == len(dims), 'engine: rank of a tensor')
            for d in dims:
                if isinstance(d, str):
                    E.check(R.int() == STR, 'engine: a variable dimension')
                    text(E, R, d, 'engine: variable of a dimension')
                else:
                    E.check(R.int() == INT, 'engine: a fixed dimension')
                    E.check(E.eq(R.int(), d), 'engine: size of a dimension')
        E.check(R.int() == len(exprs), 'engine: number of expressions')
        for name, (src, al, be, fa, tr) in exprs.items():
            text(E, R, name, 'engine: name of an expression')
            text(E, R, src, 'engine: source of an expression')
            E.check(f32eq(E, R.float(), al), 'engine: alpha')
            E.check(f32eq(E, R.float(), be), 'engine: beta')
            E.check(E.eq(R.int(), fa), 'engine: factor')
            E.check(E.eq(R.int(), tr), 'engine: truncation mode')
        E.check(R.end(), 'engine: nothing follows')
    guarded(E, go, 'engine')


def fits(E, vs):
    return E.all(*[E.all(v >= LO, v <= HI) for v in vs])


NAMES = ['x', 'a long name/with.parts', 'é中', '', 'x\u00a0']


def h_engine(E, nv, nt, ne, real):
    G = E.graph
    en = G.ShapeEngine({})
    vs = [NAMES[i] for i in range(nv)]
    for v in vs:
        en.update_variable(v, 1)
    desc, ints = {}, []
    for t in range(nt):
        dims = []
        for a in range(t + 1):
            if nv and (t + a) % 2:
                dims.append(vs[a % nv])
            else:
                d = E.int(f'd{t}_{a}', -5, 1 << 33)
                ints.append(d)
                dims.append(d)
        nm = f'{NAMES[t % 5]}:{t}'
        desc[nm] = dims
        en.add_tensor_desc(nm, list(dims))
    ex = {}
    for k in range(ne):
        e = G.ValueExpr([1, 2, 3], [1, 2, 3])
        e.alpha = E.real(f'al{k}', -8, 8) if real else E.int(f'al{k}', -(1 << 20), 1 << 20)
        e.beta = E.real(f'be{k}', -8, 8) if real else E.int(f'be{k}', -(1 << 20), 1 << 20)
        e.factor, e.truncmode = E.choice(f'fa{k}', [0, 1]), E.choice(f'tr{k}', [0, 1])
        nm, src = f'{vs[0]}_{k}é', vs[k % nv]
        en.add_expr(nm, src, e)
        ex[nm] = (src, e.alpha, e.beta, e.factor, e.truncmode)
    R, exc = written(E, E.m('serialization').serialize_shape_engine, en)
    if R is None:
        E.check(E.no(fits(E, ints)), 'engine: refused although every size fits')
        return
    E.check(fits(E, ints), 'engine: a size that does not fit is refused')
    read_engine(E, R, vs + list(ex), desc, ex)


def h_regress(E, how):
    """the engine of a model, as written by the documentation's recipe"""
    K, N = E.choice('K', [1, 4]), E.choice('N', [2, 5])
    if how == 'matmul':
        m = [out('MatMul', 'm', ['x', 'w'], ['y'])]
        g = mkgraph(E, m, [('x', ['b', K])], [('y', None)], [('w', E.opaque([K, N]))])
        desc, rng = {'x': ['b', K]}, {'b': (1, 9)}
    else:
        m = [out('Concat', 'c', ['x', 'w'], ['z'], axis=0), out('Relu', 'r', ['z'], ['y'])]
        g = mkgraph(E, m, [('x', ['b', 3])], [('y', None)], [('w', E.opaque([N, 3]))])
        desc, rng = {'x': ['b', 3]}, {'b': (1, 9)}
    r = E.call(g.shape_regress, desc, rng)
    if not r.ok:
        E.fail(f'shape_regress raises {type(r.exc).__name__}')
    en = r.val
    ex = {k: (s, e.alpha, e.beta, e.factor, e.truncmode) for k, (s, e) in en.tensor_epxr.items()}
    R, exc = written(E, E.m('serialization').serialize_shape_engine, en)
    if R is None:
        E.fail(f'serialize_shape_engine raises {type(exc).__name__}')
        return
    read_engine(E, R, list(en.variables), en.tensor_desc, ex)


def read_graph(E, R, nodes, inits):
    """nodes: (name, op, inputs, outputs, {attr: (type code, [values])})"""
    def go():
        E.check(R.int() == len(nodes), 'graph: number of nodes')
        for name, op, ins, outs, attrs in nodes:
            text(E, R, name, 'graph: name of a node')
            text(E, R, op, 'graph: operator of a node')
            for what, names in (('input', ins), ('output', outs)):
                E.check(R.int() == len(names), f'graph: number of {what}s')
                for n in names:
                    text(E, R, n, f'graph: name of an {what}')
            E.check(R.int() == len(attrs), 'graph: number of attributes')
            todo = dict(attrs)
            for _ in attrs:         # in any order
                k = R.text()
                k = k.decode() if k is not None else k
                if k not in todo:
                    E.fail('graph: name of an attribute')
                    return
                code, vals = todo.pop(k)
                E.check(R.int() == len(vals), 'graph: number of values of an attribute')
                E.check(R.int() == code, 'graph: kind of an attribute')
                for v in vals:
                    if code == STR:
                        text(E, R, v, 'graph: text of an attribute')
                    elif code == INT:
                        E.check(E.eq(R.int(), v), 'graph: integer of an attribute')
                    else:
                        E.check(f32eq(E, R.float(), v), 'graph: float of an attribute')
        E.check(R.int() == len(inits), 'graph: number of weights')
        for name, dt, shape, vals in inits:
            text(E, R, name, 'graph: name of a weight')
            E.check(R.int() == CODE[dt], 'graph: element type of a weight')
            E.check(R.int() == len(shape), 'graph: rank of a weight')
            for s in shape:
                E.check(R.int() == s, 'graph: size of a weight')
            for v in vals:
                if np.dtype(dt).kind == 'f':
                    E.check(f32eq(E, R.float(np.dtype(dt).itemsize), v if E.sym else np.dtype(dt).type(v)), 'graph: value of a weight')
                else:
                    E.check(E.eq(R.int(np.dtype(dt).itemsize, np.dtype(dt).kind == 'i'), v), 'graph: value of a weight')
        E.check(R.end(), 'graph: nothing follows')
    guarded(E, go, 'graph')


def h_attrs(E, how, loaded):
    big = E.int('big', -(1 << 33), 1 << 33)
    small = E.ints('i', 3, -(1 << 31), (1 << 31) - 1)
    fl = [E.real(f'f{i}', -8, 8) for i in range(3)]
    attrs = {'none': {}, 'int': {'i': big}, 'ints1': {'i': [big]}, 'ints3': {'is': small}, 'float': {'f': fl[0]}, 'floats': {'fs': fl}, 'text': {'s': 'linear é'}, 'bytes': {'s': b'nearest'}, 'blank': {'s': b' a b \n', 't': ' x\t'}, 'ints12': {'is': small * 4}, 'floats9': {'fs': fl * 3},
             'empty': {'s': b''}, 'many': {'b': small[0], 'a': fl[:2], 'mode': b'cubic', 'pads': small[1:], 'eps': fl[2]}, 'true': {'b': True}}[how]
    want = {}
    for k, v in attrs.items():
        vs = v if isinstance(v, list) else [v]
        want[k] = (STR if isinstance(vs[0], (str, bytes)) else FLOAT if k in ('f', 'fs', 'a', 'eps') else INT, vs)
    nodes = [out('Custom', 'n1', ['x', '', 'w'], ['y', 'z'], **attrs), out('Relu', 'n/2', ['y'], ['é'])]
    if loaded:
        g = mkgraph(E, nodes, [('x', [2])], [('é', [2])], [('w', E.array([1.0, 2.0], f32))])
    else:
        N = E.node
        g = mkgraph(E, [out('Relu', 'q', ['x'], ['y'])], [('x', [2])], [('y', [2])])
        g.nodemap.clear()
        for op, name, i, o, at in nodes:
            n = N.create_node(N.TmpNodeProto(name, op, dict(at)))
            n.input, n.output = list(i), list(o)
            g.nodemap[name] = n
    R, exc = written(E, E.m('serialization').serialize_graph, g)
    ok = E.all(big >= LO, big <= HI) if how in ('int', 'ints1') else True
    if R is None:
        E.check(E.no(ok), f'graph: refused ({type(exc).__name__}) although every value fits')
        return
    E.check(ok, 'graph: an attribute that does not fit is refused')
    read_graph(E, R, [('n1', 'Custom', [i for i in g.nodemap['n1'].input], ['y', 'z'], want), ('n/2', 'Relu', ['y'], ['é'], {})], [('w', f32, [2], [1.0, 2.0])] if loaded else [])
    E.check(list(g.nodemap['n1'].input) in (['x', '', 'w'], ['x', 'w']), 'graph: the inputs stay')


def h_refuse(E, what):
    """what the format has no place for is refused, not written as something else"""
    N = E.node
    g = mkgraph(E, [out('Relu', 'q', ['x'], ['y'])], [('x', [2])], [('y', [2])])
    n = g.nodemap['q']
    if what == 'array':
        n.attr['value'] = E.array([1, 2], i64)
    elif what == 'nothing':
        n.attr['value'] = None
    elif what == 'graph':
        n.attr['body'] = g
    elif what == 'npint':
        n.attr['axis'] = np.int64(3)
    elif what == 'npfloat':
        n.attr['eps'] = np.float32(0.5)
    elif what == 'list':
        n.attr['axes'] = [[1, 2], [3]]
    elif what in ('f64', 'bool', 'u16'):
        g.add_initial('w', E.array([1, 0], dict(f64=f64, bool=np.bool_, u16=np.uint16)[what]))
    R, exc = written(E, E.m('serialization').serialize_graph, g)
    if R is None:
        E.check(True, 'refused')
        return
    want = {'npint': {'axis': (INT, [3])}, 'npfloat': {'eps': (FLOAT, [0.5])}}.get(what)
    if want is None:
        E.fail(f'graph: {what} is not refused')
        return
    read_graph(E, R, [('q', 'Relu', ['x'], ['y'], want)], [])


def h_inits(E, dt, shape, two=False):
    k = np.dtype(dt)
    n = int(np.prod(shape)) if len(shape) else 1
    if k.kind == 'f':
        a = E.real_array('w', shape, -8, 8, dt)
    else:
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max)
        v = E.ints('w', n, int(lo), int(hi))
        a = E.array(np.array(v, dtype=object).reshape(shape).tolist() if n else np.zeros(shape, dt), dt)
    vals = list(E.elems(a)) if n else []
    g = mkgraph(E, [out('Add', 'n', ['x', 'w'], ['y'])], [('x', [2])], [('y', [2])], [('w', a)] + ([('v', E.array([[3, 4]], i64))] if two else []))
    if two:
        g.nodemap['n'].input.append('v')
    want = [('w', dt, list(shape), vals)] + ([('v', i64, [1, 2], [3, 4])] if two else [])
    want = [w for nm in g.initials for w in want if w[0] == nm]
    R, exc = written(E, E.m('serialization').serialize_graph, g)
    if R is None:
        E.fail(f'graph: refused ({type(exc).__name__})')
        return
    E.check('w' in g.initials, 'the weight is there')
    nd = g.nodemap['n']
    read_graph(E, R, [('n', 'Add', list(nd.input), list(nd.output), {})], want)


def h_transposed(E):
    """a weight that is a view is written in row order"""
    v = E.ints('w', 6, -99, 99)
    a = E.array([v[:3], v[3:]], i32)
    g = mkgraph(E, [out('Relu', 'n', ['x'], ['y'])], [('x', [2])], [('y', [2])])
    g.add_initial('w', a.T)
    R, exc = written(E, E.m('serialization').serialize_graph, g)
    if R is None:
        E.fail(f'graph: refused ({type(exc).__name__})')
        return
    read_graph(E, R, [('n', 'Relu', ['x'], ['y'], {})], [('w', i32, [3, 2], [v[0], v[3], v[1], v[4], v[2], v[5]])])


def h_memory(E, n, k):
    blocks = {NAMES[i] + str(i): [E.int(f'o{i}', 0, 1 << 64), E.int(f's{i}', 0, 1 << 40)] for i in range(n)}
    total = E.int('total', 0, 1 << 64)
    mx = {NAMES[i]: E.int(f'm{i}', 0, 1 << 40) for i in range(k)}
    vals = [total] + [v for b in blocks.values() for v in b] + list(mx.values())
    ok = E.all(*[v < (1 << 63) for v in vals])
    R, exc = written(E, E.m('serialization').serialize_memory_compression, (blocks, total), mx)
    if R is None:
        E.check(E.no(ok), 'memory: refused although every size fits')
        return
    E.check(ok, 'memory: a size that does not fit is refused')

    def go():
        E.check(E.eq(R.int(8), total), 'memory: size of the pool')
        E.check(R.int(8) == n, 'memory: number of tensors')
        for nm, (o, s) in blocks.items():
            text(E, R, nm, 'memory: name of a tensor')
            E.check(E.eq(R.int(8), o), 'memory: offset')
            E.check(E.eq(R.int(8), s), 'memory: size')
        E.check(R.int(8) == k, 'memory: number of variables')
        for nm, v in mx.items():
            text(E, R, nm, 'memory: name of a variable')
            E.check(E.eq(R.int(8), v), 'memory: largest value of a variable')
        E.check(R.end(), 'memory: nothing follows')
    guarded(E, go, 'memory')


def h_plan(E):
    """the plan compress_memory makes for a model is what is written"""
    b = E.int('b', 1, 100)
    ns = [out('Relu', 'n0', ['x'], ['a']), out('Sigmoid', 'n1', ['a'], ['c']), out('Add', 'n2', ['a', 'c'], ['y'])]
    g = mkgraph(E, ns, [('x', [b, 3])], [('y', None)])
    g.shape_infer({'x': E.opaque([b, 3])})
    cg = g.get_compute_graph()
    plan = cg.compress_memory()
    R, exc = written(E, E.m('serialization').serialize_memory_compression, plan, {'b': b})
    if R is None:
        E.fail(f'memory: refused ({type(exc).__name__})')
        return

    def go():
        E.check(E.eq(R.int(8), plan[1]), 'memory: size of the pool')
        E.check(R.int(8) == len(plan[0]), 'memory: number of tensors')
        for nm, (o, s) in plan[0].items():
            text(E, R, nm, 'memory: name of a tensor')
            E.check(E.all(E.eq(R.int(8), o), E.eq(R.int(8), s)), 'memory: offset and size')
        E.check(R.int(8) == 1 and R.text() == b'b', 'memory: the variable')
        E.check(E.eq(R.int(8), b), 'memory: largest value of a variable')
        E.check(R.end(), 'memory: nothing follows')
    guarded(E, go, 'memory')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for nv, nt, ne in ((0, 0, 0), (1, 1, 0), (2, 2, 1), (2, 3, 2), (0, 2, 0)) + (((3, 4, 3),) if th else ()):
        for real in (False, True) if ne else (False,):
            obs.append(Ob(f'engine-{nv}{nt}{ne}{"-real" if real else ""}', h_engine, dict(nv=nv, nt=nt, ne=ne, real=real)))
    obs += [Ob(f'regress-{h}', h_regress, dict(how=h)) for h in ('matmul', 'concat')]
    for how in ('none', 'int', 'ints1', 'ints3', 'float', 'floats', 'text', 'bytes', 'blank', 'ints12', 'floats9', 'empty', 'many', 'true'):
        for ld in (False, True):
            obs.append(Ob(f'attr-{how}{"-loaded" if ld else ""}', h_attrs, dict(how=how, loaded=ld)))
    obs += [Ob(f'refuse-{w}', h_refuse, dict(what=w)) for w in ('array', 'nothing', 'graph', 'npint', 'npfloat', 'list', 'f64', 'bool', 'u16')]
    for dt in CODE:
        for s in ([], [2], [1, 2], [0], [2, 2, 1]):
            obs.append(Ob(f'weight-{np.dtype(dt).name}-{"x".join(map(str, s)) or "scalar"}', h_inits, dict(dt=dt, shape=s, two=len(s) == 2)))
    obs.append(Ob('weight-view', h_transposed))
    obs += [Ob(f'memory-{n}{k}', h_memory, dict(n=n, k=k)) for n, k in ((0, 0), (1, 1), (3, 2)) + (((5, 5),) if th else ())]
    obs.append(Ob('memory-plan', h_plan))
    return obs


BOUNDS = {'engine-': 'up to 3 tensors of rank 1..3 and 2 expressions (4 and 3 thorough), sizes -5..2^33, real and integer factors and offsets', 'regress-': 'two models with weight sizes 1..64',
          'attr-': 'integers -2^33..2^33, reals -8..8, lists of 1..12, texts; nodes made by hand and loaded from a model', 'refuse-': 'arrays, nothing, graphs, nested lists, numpy scalars, unsupported element types',
          'weight-': 'all 6 element types, ranks 0..3, empty and non-contiguous weights, every value', 'memory-': '0..3 tensors, 0..2 variables (5 thorough), offsets and sizes 0..2^64'}
OUTSIDE = 'names containing a zero character; the C++ reader of the files; lists mixing element kinds'
ASSUMPTIONS = ['float32 rounding of engine factors, attributes and weights is exact in symbolic runs and compared at float32 in replays', 'struct, bytearray and open are represented by symex/sbytes.py in symbolic runs']
