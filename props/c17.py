"""C17 - shape regression (ShapeEngine) and extraction of the compute graph."""
import warnings
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from . import c09

f32, i64 = np.float32, np.int64
K, S = c09.K, c09.S


# ---- ValueExpr: the fitted relation is the true one
def h_affine(E, a):
    """y = a*x + b, any b, any sampled range, any x"""
    lo, n, b, x = E.int('lo', 0, 5000), E.int('len', 1, 5000), E.int('b', -1000, 1000), E.int('x', 0, 10000)
    hi = lo + n
    f = lambda v: a * v + b
    src = [lo, (lo + hi) // 2, hi]
    r = E.call(E.graph.ValueExpr, src, [f(v) for v in src])
    if not r.ok:
        E.fail(f'fitting y={a}*x+b raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    E.observe('y', r.val(x))
    E.check(r.val(x) == f(x), f'y={a}*x+b is reproduced for every x')
    E.check(r.val.error(src, [f(v) for v in src]) == 0, f'y={a}*x+b has no error')


def h_strided(E, s, up, ns):
    """y = x/s rounded up or down, plus b; the ends of the range are multiples of s, the midpoint is not (it tells the rounding mode)"""
    p, n, b = E.int('p', 0, 3000), E.choice('n', ns), E.int('b', -50, 50)
    q, rest = E.int('q', 0, 3000), E.choice('rest', list(range(s)))
    lo, hi, mid = s * p, s * (p + n), s * p + s * n // 2
    fmid = p + (s * n // 2) // s
    u = 1 if up else 0
    dst = [p + b, fmid + u + b, p + n + b]
    r = E.call(E.graph.ValueExpr, [lo, mid, hi], dst)
    if not r.ok:
        E.fail(f'fitting raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    y = r.val(s * q + rest)
    E.observe('y', y)
    E.check(y == q + b + (u if rest else 0), f'x/{s} rounded {"up" if up else "down"} is reproduced for every x')


def h_half(E, up, ns):
    """y = x/2 rounded, plus b: a range whose samples are not all even or all odd"""
    p, odd, n, b = E.int('p', 0, 3000), E.choice('odd', [0, 1]), E.choice('n', ns), E.int('b', -50, 50)
    q, rest = E.int('q', 0, 3000), E.choice('rest', [0, 1])
    offs = [odd, (2 * odd + n) // 2, odd + n]
    if len({v % 2 for v in offs}) == 1:
        return
    u = 1 if up else 0
    r = E.call(E.graph.ValueExpr, [2 * p + v for v in offs], [p + (v + u) // 2 + b for v in offs])
    if not r.ok:
        E.fail(f'fitting raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    y = r.val(2 * q + rest)
    E.observe('y', y)
    E.check(y == q + b + (u if rest else 0), f'x/2 rounded {"up" if up else "down"} + b is reproduced for every x')


def h_error(E):
    """error() is the summed distance over the samples"""
    v = [E.int(f'v{i}', 0, 200) for i in range(3)]
    e = E.graph.ValueExpr([1, 2, 3], [1, 2, 3])
    src = [E.int(f's{i}', 0, 200) for i in range(3)]
    want = 0
    for a, b in zip(src, v):
        want = want + E.ite(a > b, a - b, b - a)
    E.observe('err', e.error(src, v))
    E.check(e.error(src, v) == want, 'the reported error')


# ---- ShapeEngine by itself
def h_engine(E):
    """descriptors, expressions chained over other expressions, and generated inputs"""
    a, b = E.int('a', 1, 50), E.int('b', 1, 50)
    se = E.graph.ShapeEngine({'x': ('n', 3, 'h'), 'y': ['h', 'n'], 'z': [4, 5]})
    V = E.graph.ValueExpr
    se.add_tensor_desc('t', ['1', 7, '', 'n'])
    se.update_tensor_desc('t', 2, '2')
    se.add_expr('1', 'h', V([1, 5, 10], [5, 21, 41]))
    se.add_expr('2', '1', V([5, 21, 41], [2, 18, 38]))
    se.update_variable('n', a)
    se.update_variable('h', b)
    se.update_variables()
    for k, w in {'x': [a, 3, b], 'y': [b, a], 'z': [4, 5], 't': [4 * b + 1, 7, 4 * b - 2, a]}.items():
        E.observe(k, se.get_tensorshape(k))
        E.check(E.same(se.get_tensorshape(k), w), f'shape of {k}')
    E.check(list(se.get_tensor_desc('t')) == ['1', 7, '2', 'n'] and se.get_tensor_desc('q') is None, 'descriptors')
    inp = se.generate_input()
    E.check(sorted(inp) == ['x', 'y', 'z'], 'generated inputs')
    for k, w in {'x': [a, 3, b], 'y': [b, a], 'z': [4, 5]}.items():
        E.check(E.same(list(inp[k].shape), w), f'generated input {k}')
    c = E.int('c', 1, 50)
    se.update_variable('h', c)
    se.update_variables()
    E.check(E.same(se.get_tensorshape('t'), [4 * c + 1, 7, 4 * c - 2, a]), 'shapes after another update')


# ---- shape_regress on graphs: the same shapes as shape inference at that size
def r_cnn(E, d):
    n, h, w = d('n'), d('h'), d('w')
    nodes = [out('Conv', 'c0', ['x', 'cw'], ['a'], kernel_shape=[7, 7], strides=[2, 2], pads=[3, 3, 3, 3], dilations=[1, 1], group=1),
             out('Relu', 'r0', ['a'], ['r']), out('MaxPool', 'p0', ['r'], ['p'], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1]),
             out('Conv', 'c1', ['p', 'cw1'], ['b'], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1], dilations=[1, 1], group=1),
             out('Conv', 'c2', ['p', 'cw2'], ['b2'], kernel_shape=[1, 1], strides=[2, 2], pads=[0, 0, 0, 0], dilations=[1, 1], group=1),
             out('Add', 'ad', ['b', 'b2'], ['s']), out('GlobalAveragePool', 'g', ['s'], ['ga']), out('Flatten', 'fl', ['ga'], ['f'], axis=1),
             out('Gemm', 'fc', ['f', 'gw'], ['y'], transB=1)]
    inits = [weight(E, 'cw', [4, 3, 7, 7]), weight(E, 'cw1', [4, 4, 3, 3]), weight(E, 'cw2', [4, 4, 1, 1]), weight(E, 'gw', [10, 4])]
    return nodes, inits, {'x': [n, 3, h, w]}, ['y', 's']


def r_valid(E, d):
    """unpadded strided windows, as in Inception: (x-3)//2+1, then pooling, padding and an even kernel"""
    n, h, w = d('n'), d('h'), d('w')
    nodes = [out('Conv', 'c0', ['x', 'cw'], ['a'], kernel_shape=[3, 3], strides=[2, 2], pads=[0, 0, 0, 0], dilations=[1, 1], group=1),
             out('Conv', 'c1', ['a', 'cw1'], ['b'], kernel_shape=[3, 3], strides=[1, 1], pads=[0, 0, 0, 0], dilations=[1, 1], group=1),
             out('MaxPool', 'p', ['b'], ['c'], kernel_shape=[2, 2], strides=[2, 2], pads=[1, 1, 1, 1]),
             out('Pad', 'pd', ['c', 'pads'], ['d']), out('Transpose', 't', ['d'], ['y'], perm=[0, 2, 3, 1])]
    return nodes, [weight(E, 'cw', [4, 3, 3, 3]), weight(E, 'cw1', [4, 4, 3, 3]), ('pads', K(E, 0, 0, 1, 2, 0, 0, 3, 4))], {'x': [n, 3, h, w]}, ['y']


def r_chain(E, d):
    """unpadded halvings one behind the other: the second size follows from the first, not from the input (with a second chain for the second variable)"""
    h, w = d('h'), d('w')
    nodes = [out('MaxPool', 'p0', ['x'], ['a'], kernel_shape=[3, 3], strides=[2, 2]), out('MaxPool', 'p1', ['a'], ['b'], kernel_shape=[3, 3], strides=[2, 2]),
             out('Relu', 'r', ['b'], ['y']), out('Transpose', 't', ['a'], ['z'], perm=[3, 0, 2, 1])]
    return nodes, [], {'x': [1, 2, h, w]}, ['y', 'z']


def r_bert(E, d):
    b, s = d('b'), d('s')
    nodes, inits, _, _, outs = c09.T['mha'](E, lambda nm, lo, hi: {'b': b, 's': s}[nm])
    return nodes, inits, {'x': [b, s, 24], 'msk': [b, 1, 1, s]}, outs


def r_pos(E, d):
    b, s = d('b'), d('s')
    nodes, inits, _, _, outs = c09.T['position'](E, lambda nm, lo, hi: {'b': b, 's': s}[nm])
    return nodes, inits, {'ids': ([b, s], i64)}, outs


def r_upsample(E, d):
    n, h, w = d('n'), d('h'), d('w')
    nodes, inits, _, _, outs = c09.T['upsample'](E, lambda nm, lo, hi: {'n': n, 'c': 5, 'h': h, 'w': w}[nm])
    return nodes, inits, {'x': [n, 5, h, w]}, outs


def r_view(E, d):
    n, w = d('n'), d('w')
    nodes, inits, _, _, outs = c09.T['view'](E, lambda nm, lo, hi: {'n': n, 'c': 5, 'h': 4, 'w': w}[nm])
    return nodes, inits, {'x': [n, 5, 4, w]}, outs


def r_halves(E, d):
    n, h = d('n'), d('h')
    nodes, inits, _, _, outs = c09.T['split'](E, lambda nm, lo, hi: {'n': n, 'c': 3, 'h': h}[nm])
    return nodes, inits, {'x': [n, 6, h]}, outs


def r_tilepad(E, d):
    n, h = d('n'), d('h')
    nodes, inits, _, _, outs = c09.T['tilepad'](E, lambda nm, lo, hi: {'n': n, 'h': h}[nm])
    return nodes, inits, {'x': [n, h], 'y0': [1, 3, 4]}, outs


def r_concat(E, d):
    """one size in two places: x ++ const, doubled, halved again; the rest of a table (64-h) and what is left of two (70-2h)"""
    h = d('h')
    nodes = [out('Concat', 'c0', ['x', 'k3'], ['a'], axis=0), out('Concat', 'c1', ['a', 'x', 'a'], ['b'], axis=0), out('MatMul', 'm', ['b', 'xT'], ['c']),
             out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i0'], ['hh'], axis=0), out('Slice', 'sl', ['tab', 'hh', 'big', 'ax'], ['d']),
             out('Mul', 'mu', ['hh', 'two'], ['h2']), out('Slice', 'sl2', ['tab2', 'h2', 'big', 'ax'], ['e']), out('Transpose', 't', ['e'], ['f'], perm=[1, 0]),
             out('Neg', 'ng', ['d'], ['dd'])]
    inits = [weight(E, 'k3', [3, 4]), weight(E, 'tab', [64, 2]), weight(E, 'tab2', [70, 2]), ('i0', K(E, 0)), ('big', K(E, 1 << 40)), ('ax', K(E, 0)), ('two', K(E, 2))]
    return nodes, inits, {'x': [h, 4], 'xT': [4, h]}, ['c', 'dd', 'f']


def r_many(E, d):
    """three variables, each in five different relations and by itself before, between and after them, in ranks 1-4"""
    vs = [d('a'), d('b'), d('c')]
    nodes, outs, inits, ins = [], [], [('k3', K(E, 1, 2, 3, dt=f32))], {}
    for i, v in enumerate(vs):
        x = f'x{i}'
        ins[x] = [v]
        nodes += [out('Relu', f'r{i}', [x], [f'r{i}']), out('Concat', f'c2{i}', [x, x], [f'd{i}'], axis=0), out('Concat', f'cp{i}', [x, 'k3'], [f'p{i}'], axis=0),
                  out('Concat', f'c3{i}', [f'd{i}', x], [f't{i}'], axis=0), out('Abs', f'ab{i}', [x], [f'ab{i}']), out('Concat', f'c5{i}', [f't{i}', f'd{i}'], [f'f{i}'], axis=0),
                  out('Concat', f'c6{i}', [f'f{i}', f'p{i}'], [f's{i}'], axis=0), out('Neg', f'n{i}', [f'r{i}'], [f'n{i}'])]
        outs += [f'ab{i}', f's{i}', f'n{i}']
    # several variables in one tensor, one relation of each
    ins['y'] = [vs[1], vs[0]]
    nodes += [out('Transpose', 'tr', ['y'], ['yt'], perm=[1, 0]), out('Concat', 'cy', ['y', 'y', 'y'], ['y3'], axis=0), out('Concat', 'cz', ['y3', 'y3'], ['y6'], axis=1),
              out('Unsqueeze', 'un', ['y6', 'un'], ['y7']), out('Add', 'ad', ['yt', 'x1'], ['ya']), out('Relu', 'last', ['x2'], ['last'])]
    inits.append(('un', K(E, 0, 2)))
    return nodes, inits, ins, outs + ['y7', 'ya', 'last']


def _simple(name, sizes, dt=f32):
    def r(E, d):
        vals = {k: d(k) for k in sizes}
        nodes, inits, ins, _, outs = c09.T[name](E, lambda nm, lo, hi: vals[nm])
        return nodes, inits, ins, outs
    return r


# name -> (template, {var: (sampled lo, hi, symbolic lo, hi)})
REG = {
    'cnn': (r_cnn, [dict(n=(1, 4, 1, 4), h=(224, 299, 16, 512), w=(224, 299, 16, 512)),
                    dict(n=(2, 3, 1, 4), h=(63, 128, 16, 512), w=(100, 261, 16, 512))]),
    'valid': (r_valid, [dict(n=(1, 4, 1, 4), h=(224, 299, 16, 512), w=(75, 128, 16, 512)), dict(n=(1, 2, 1, 4), h=(33, 64, 16, 512), w=(40, 75, 16, 512))]),
    'chain': (r_chain, [dict(h=(35, 70, 16, 512), w=(39, 90, 16, 512)), dict(w=(67, 130, 16, 512), h=(35, 70, 16, 512))]),
    'bert': (r_bert, [dict(b=(1, 4, 1, 16), s=(16, 384, 1, 512)), dict(b=(1, 8, 1, 16), s=(1, 2, 1, 512))]),
    'pos': (r_pos, [dict(b=(1, 4, 1, 64), s=(2, 11, 1, 16))]),
    'upsample': (r_upsample, [dict(n=(1, 4, 1, 8), h=(8, 32, 1, 256), w=(5, 9, 1, 256))]),
    'view': (r_view, [dict(n=(1, 4, 1, 64), w=(8, 64, 1, 512))]),
    'halves': (r_halves, [dict(n=(1, 4, 1, 64), h=(8, 31, 2, 512)), dict(n=(1, 3, 1, 64), h=(9, 64, 2, 512))]),
    'tilepad': (r_tilepad, [dict(n=(1, 4, 1, 64), h=(2, 32, 1, 512))]),
    'gru': (_simple('gru', 'bs'), [dict(b=(1, 4, 1, 64), s=(3, 40, 1, 64))]),
    'expand': (_simple('expand', 'nh'), [dict(n=(1, 8, 1, 64), h=(3, 40, 1, 64))]),
    'many': (r_many, [dict(a=(2, 16, 1, 512), b=(3, 40, 1, 512), c=(1, 65, 1, 512)), dict(c=(5, 6, 1, 512), a=(8, 32, 1, 512), b=(8, 32, 1, 512))]),
    'concat': (r_concat, [dict(h=(4, 31, 1, 35)), dict(h=(1, 12, 1, 35))]),
}


class Var(str):
    """a variable name in the place of a size while a template builds its nodes"""
    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __add__


def regress(E, name, rng, cfg, order=False):
    """-> graph, engine, input descriptor, dtypes"""
    tpl = REG[name][0]
    nodes, inits, ins, outs = tpl(E, Var)      # the variable names themselves as sizes: an input descriptor
    ins = c09.norm_inputs(ins)
    ins = {k: ([str(v) if isinstance(v, str) else v for v in s], dt) for k, (s, dt) in ins.items()}
    inputs = [(k, s, dt) for k, (s, dt) in ins.items()]
    g = mkgraph(E, nodes[::-1] if order else nodes, inputs, [(o, None, f32) for o in outs], inits, **cfg)
    if order:
        g.graph_reorder_nodes()
    desc = {k: tuple(s) for k, (s, dt) in ins.items()}
    r = E.call(g.shape_regress, desc, {v: (lo, hi) for v, (lo, hi, _, _) in rng.items()})
    if not r.ok:
        E.fail(f'{name}: shape_regress raises {type(r.exc).__name__}: {str(r.exc)[:120]}')
    return g, r.val, ins


def h_regress(E, name, i, cfg, order=False):
    rng = REG[name][1][i]
    g, se, ins = regress(E, name, rng, cfg, order)
    size = {v: E.int(v, lo, hi) for v, (_, _, lo, hi) in rng.items()}
    real = {k: ([size.get(v, v) for v in s], dt) for k, (s, dt) in ins.items()}
    for v in size:
        se.update_variable(v, size[v])
    se.update_variables()
    c09.go(E, g, real, name)
    for k, (s, dt) in real.items():
        E.check(E.same(se.get_tensorshape(k), s), f'{name}: input {k}')
    for t in list(g.dynamics):
        if t in real:
            continue
        r = E.call(se.get_tensorshape, t)
        if not r.ok:
            E.fail(f'{name}: no shape for {t}: {type(r.exc).__name__}')
        E.observe(t, r.val)
        E.check(E.same(r.val, tshape(g, t)), f'{name}: {t} has the size shape inference gives')
    inp = se.generate_input()
    for k, (s, dt) in real.items():
        E.check(E.same(list(inp[k].shape), s), f'{name}: generated input {k}')


def h_warn(E, ok):
    """a relation that no expression of the family fits is warned about when a sample shows it"""
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i0'], ['h'], axis=0),
             out('Mul' if not ok else 'Add', 'm', ['h', 'h'], ['hh']), out('ConstantOfShape', 'cs', ['hh'], ['y'], value=K(E, 0, dt=f32))]
    g = mkgraph(E, nodes, [('x', ['n', 2], f32)], [('y', None, f32)], [('i0', K(E, 0))])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g.shape_regress({'x': ('n', 2)}, {'n': (2, 9)})
    E.check(bool([x for x in w if 'error' in str(x.message)]) == (not ok), 'a sampled size that the engine gets wrong is warned about')


def h_dispatch(E, rev):
    """onnx_tool.model_shape_regress returns the engine and the compute graph"""
    import os
    h = E.int('h', 2, 512)
    nodes, inits, ins, outs = r_halves(E, Var)
    m = model(E, nodes[::-1] if rev else nodes, [(k, ['n', 6, 'h'], f32) for k in ins], [(o, None, f32) for o in outs], inits)
    r = E.call(E.m('').model_shape_regress, m, {'x': (2, 6, 'h')}, {'h': (8, 31)})
    if not r.ok:
        E.fail(f'model_shape_regress raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    se, cg = r.val
    se.update_variable('h', h)
    se.update_variables()
    for t, w in {'top': [2, 3, h // 2], 'bot': [2, 3, h - h // 2], 'y': [2, 3, h]}.items():
        E.observe(t, se.get_tensorshape(t))
        E.check(E.same(se.get_tensorshape(t), w), f'shape of {t}')
    E.check(sorted(cg.nodemap) == ['cc', 'sl', 'sl2', 'sp'], 'the compute graph')


# ---- compute graph
SHAPE_IN = {'Reshape': [1], 'Expand': [1], 'Tile': [1], 'Slice': [1, 2, 3, 4], 'Resize': [2, 3], 'ConstantOfShape': [0], 'Range': [0, 1, 2],
            'TopK': [1], 'Pad': [1, 3], 'Split': [1], 'Squeeze': [1], 'Unsqueeze': [1], 'ReduceSum': [1], 'ReduceMean': [1], 'ReduceMax': [1], 'ReduceMin': [1], 'ReduceProd': [1], 'ReduceL2': [1], 'Upsample': [1], 'OneHot': [1], 'NonMaxSuppression': [2]}


def shape_in(op, ins):
    return [1] if op == 'Resize' and len([t for t in ins if t]) == 2 and len(ins) == 2 else SHAPE_IN.get(op, [])


def needed(nodes, outs, static):
    """nodes whose result reaches a graph output (or is read by nobody) other than through the shape operand of a node"""
    by = {o: n for n in nodes for o in n[3]}
    keep, todo = set(), [by[o][1] for o in outs if o in by]
    # only dynamic nodes can be shape chains or data; a node without readers is an output of its own
    name = {n[1]: n for n in nodes}
    while todo:
        k = todo.pop()
        if k in keep:
            continue
        keep.add(k)
        op, _, i, o, at = name[k]
        for j, t in enumerate(i):
            if j in shape_in(op, i) or t not in by:
                continue
            todo.append(by[t][1])
    return keep


def x_scale(E, d):
    """a size used both as a reshape target and as data (the sqrt(d) scale of attention)"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i1'], ['d'], axis=0), out('Cast', 'c', ['d'], ['df'], to=1), out('Sqrt', 'sq', ['df'], ['k']),
             out('Concat', 'cc', ['m1', 'd'], ['tgt'], axis=0), out('Div', 'dv', ['x', 'k'], ['y']), out('Reshape', 'rs', ['y', 'tgt'], ['z'])]
    return nodes, [('i1', K(E, 1)), ('m1', K(E, -1))], {'x': [n, h]}, {}, ['z']


def x_sizes_out(E, d):
    """the target shape is a graph output too"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i1'], ['d'], axis=0), out('Concat', 'cc', ['d', 'm1'], ['tgt'], axis=0),
             out('Reshape', 'rs', ['x', 'tgt'], ['z'])]
    return nodes, [('i1', K(E, 1)), ('m1', K(E, -1))], {'x': [n, h]}, {}, ['z', 'd']


def x_input_shape(E, d):
    """a data tensor whose only readers are Shape nodes, and a whole unused chain"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Relu', 'r', ['x'], ['rx']), out('Neg', 'ng', ['rx'], ['nx']), out('Shape', 'sh', ['nx'], ['s']), out('Slice', 'sl', ['s', 'i1', 'i2'], ['d']),
             out('Concat', 'cc', ['d', 'm1'], ['tgt'], axis=0), out('Exp', 'ex', ['x'], ['e']), out('Reshape', 'rs', ['e', 'tgt'], ['z'])]
    return nodes, [('i1', K(E, 1)), ('i2', K(E, 2)), ('m1', K(E, -1))], {'x': [n, h]}, {}, ['z']


def x_shared(E, d):
    """one computed target read by four Reshape nodes"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i1'], ['d'], axis=0), out('Concat', 'cc', ['m1', 'd'], ['tgt'], axis=0),
             out('Reshape', 'r0', ['x', 'tgt'], ['a']), out('Relu', 'e', ['a'], ['b']), out('Reshape', 'r1', ['b', 'tgt'], ['y']), out('Reshape', 'r2', ['a', 'tgt'], ['z']), out('Reshape', 'r3', ['x', 'tgt'], ['w'])]
    return nodes, [('i1', K(E, 1)), ('m1', K(E, -1))], {'x': [n, h]}, {}, ['y', 'z', 'w']


def x_nms(E, d):
    """the number of boxes to keep is computed from a size; the scores come from data"""
    n = d('n', 2, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g', ['s', 'i1'], ['k'], axis=0), out('Relu', 'r', ['sc'], ['rs']), out('NonMaxSuppression', 'op', ['x', 'rs', 'k', 'th', 'th'], ['y'])]
    return nodes, [('i1', K(E, 1)), ('th', K(E, 0.5, dt=f32))], {'x': [1, n, 4], 'sc': [1, 2, n]}, {}, ['y']


def _op(f):
    def t(E, d):
        nodes, inits, ins, want = f(E, d)
        pre, pin = c09.comp(E, d)
        nodes, inits = c09.used(pre + nodes, pin + inits, list(want))
        return nodes, inits, ins, want, list(want)
    return t


CG = dict(c09.T)
CG.update({f'operand-{k}': _op(f) for k, f in c09.X.items()})
CG.update(nms=x_nms)
CG.update(shared=x_shared, scale=x_scale, sizes_out=x_sizes_out, input_shape=x_input_shape)


def h_compute(E, name, folding, inferred):
    d = lambda nm, lo, hi: E.int(f'{nm}', lo, hi)
    nodes, inits, ins, want, outs = CG[name](E, d)
    ins = c09.norm_inputs(ins)
    inputs = [(k, [f'{k}_{i}' for i in range(len(s))], dt) for k, (s, dt) in ins.items()]
    g = mkgraph(E, nodes, inputs, [(o, None, f32) for o in outs], inits, constant_folding=folding)
    if inferred:
        c09.go(E, g, ins, name)
    snap = lambda: (list(g.nodemap), list(g.input), list(g.output), sorted(g.tensormap), list(g.dynamics), list(g.initials),
                    {k: sorted(v) for k, v in g.producedby.items()}, {k: sorted(v) for k, v in g.consumedby.items()},
                    {k: (v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items()})
    before = snap()
    shapes = {t: tshape(g, t) for t in g.dynamics}
    r = E.call(g.get_compute_graph)
    if not r.ok:
        E.fail(f'{name}: get_compute_graph raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    cg = r.val
    E.check(snap() == before, f'{name}: the graph itself is left as it was')
    left = set(g.nodemap)
    keep = {k for k in needed(nodes, outs, ()) if k in left}
    E.check(set(cg.nodemap) == keep, f'{name}: exactly the nodes that only compute shapes are gone: {sorted(set(cg.nodemap) ^ keep)}')
    E.check([k for k in cg.nodemap] == [k for k in g.nodemap if k in cg.nodemap], f'{name}: node order')
    E.check(list(cg.input) == list(g.input) and list(cg.output) == list(g.output), f'{name}: inputs and outputs')
    made = {o for n in cg.nodemap.values() for o in n.output}
    for k, n in cg.nodemap.items():
        E.check((n.op_type, list(n.input), list(n.output)) == before[8][k], f'{name}: node {k} is unchanged')
        for j, t in enumerate(n.input):
            if t and j not in shape_in(n.op_type, list(n.input)):
                E.check(t in made or t in cg.input or t in cg.initials, f'{name}: operand {t} of {k} is available')
    dyn = list(cg.dynamics)
    E.check(len(dyn) == len(set(dyn)) and set(dyn) == made | set(cg.input) | set(cg.output), f'{name}: the activations of the compute graph, each once')
    for t in dyn:
        if t in shapes:
            E.check(E.same(tshape(cg, t), shapes[t]), f'{name}: shape of {t}')
    for tab, side in ((cg.producedby, 'output'), (cg.consumedby, 'input')):
        for t in made | set(cg.input):
            w = sorted({n.name for n in cg.nodemap.values() if t in getattr(n, side)})
            E.check(sorted(set(tab.get(t, []))) == w, f'{name}: {side} table of {t}')


def obligations(tier):
    th = tier == 'thorough'
    obs = [Ob(f'affine-{a}', h_affine, dict(a=a)) for a in (1, 2, 3, 4, 7, -1, -2, -3)]
    obs += [Ob(f'strided-{s}-{"up" if u else "down"}', h_strided, dict(s=s, up=u, ns=[1, 3, 5, 7, 15, 101] + ([9, 33, 77, 225, 999] if th else []))) for s in ((2, 3, 4, 8) if not th else (2, 3, 4, 5, 8, 16, 32)) for u in (False, True)]
    obs += [Ob(f'half-{"up" if u else "down"}', h_half, dict(up=u, ns=[4, 5, 6, 7, 8, 9, 10, 19, 33, 75] + (list(range(11, 200)) if th else []))) for u in (False, True)]
    obs += [Ob('error', h_error), Ob('engine', h_engine), Ob('dispatch', h_dispatch, dict(rev=False)), Ob('dispatch-rev', h_dispatch, dict(rev=True)), Ob('warn', h_warn, dict(ok=False)), Ob('nowarn', h_warn, dict(ok=True))]
    for n, (_, rs) in REG.items():
        for i in range(len(rs)):
            for fold in (False, True):
                obs.append(Ob(f'regress-{n}-{i}-{"fold" if fold else "raw"}', h_regress, dict(name=n, i=i, cfg={'constant_folding': fold}), weight=3))
        obs.append(Ob(f'regress-{n}-reordered', h_regress, dict(name=n, i=0, cfg={}, order=True), weight=3))
    for n in CG:
        for fold in (False, True):
            for inf in (False, True) if n != 'nms' else (False,):
                obs.append(Ob(f'compute-{n}-{"fold" if fold else "raw"}-{"inferred" if inf else "plain"}', h_compute, dict(name=n, folding=fold, inferred=inf)))
    return obs


BOUNDS = {'all': 'fitted relations a*x+b (8 slopes, offsets -1000..1000, every range within 0..10000) and x/s rounded up or down plus b (s in 2,3,4,8; ranges of 1-101 steps '
                 '(thorough 999) at any start to 24000); 12 graph families (CNNs with padded and unpadded strides, attention, positional range, resize, view, halves, tile/pad, '
                 'concatenations and remainders, recurrent, three variables with five relations each) at 1-2 sampled ranges each and every later size 1..512; compute graph of 17 families and of every operand that can be a computed shape, folded or not, before '
                 'and after shape inference'}
OUTSIDE = ('extents that depend on two variables at once (a product or sum: the engine keeps one variable per extent, see the TODO in shape_regress) and piecewise ones; '
           'ranges whose three samples cannot tell rounding up from rounding down')
ASSUMPTIONS = ['true division of integers below 2^51 followed by floor/ceil/round is exact (IEEE double)']
