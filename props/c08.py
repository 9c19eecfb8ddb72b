"""C08 - the cost reported for an operator: MACs, activation elements, weight elements."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .c02 import window, AUTO
from .c05 import EQS

D = 4096


def vol(E, s):
    return prod(s) if len(s) else 0


def profile(E, op, attrs, ins, nout=1, static=(), infer=True, outs=None):
    n = E.mknode(op, attrs, len(ins), nout, static=static)
    outs = outs or [E.t(f'o{i}', []) for i in range(nout)]
    if infer:
        r = E.call(n.shape_infer, ins, outs)
        if not r.ok:
            E.fail(f'{op}: shape inference raises {type(r.exc).__name__}')
    r = E.call(n.profile, ins, outs)
    if not r.ok:
        E.fail(f'{op}: profile raises {type(r.exc).__name__}')
    return list(r.val), outs


def verdict(E, op, got, outs, macs, ins, static=(), weights=None):
    E.observe('cost', got)
    E.check(E.eq(got[0], macs), f'{op}: MACs')
    io = 0
    for o in outs:
        io = io + vol(E, o.get_shape())
    E.check(E.eq(got[1], io), f'{op}: activation elements')
    if weights is None:
        weights = 0
        for i in static:
            weights = weights + vol(E, ins[i].get_shape())
    E.check(E.eq(got[2], weights), f'{op}: weight elements')


# ------------------------------------------------------------------ element-wise and normalisation
MUL = ADD = CMP = 1
DIV, EXP, LOG, SIN, COS, SQRT = 4, 32, 43, 39, 39, 24
TANH = EXP + 2 * ADD + DIV
ATAN = SQRT + 3 * MUL + MUL + DIV
ELEM = {
    # op: (weight per output element, number of inputs)
    'Sub': (ADD, 2), 'Add': (ADD, 2), 'Mul': (MUL, 2), 'Div': (DIV, 2), 'Mod': (ADD, 2), 'Neg': (CMP, 1), 'Abs': (CMP, 1), 'Ceil': (ADD, 1),
    'Exp': (EXP, 1), 'Log': (LOG, 1), 'Sqrt': (SQRT, 1), 'Sin': (SIN, 1), 'Cos': (COS, 1), 'Pow': (EXP, 2), 'Tanh': (2 * TANH, 1),
    'Softmax': (EXP + DIV, 1), 'Softplus': (EXP + ADD + LOG, 1), 'LogSoftmax': (EXP + DIV + ADD + LOG, 1), 'Sigmoid': (EXP, 1),
    'Sign': (CMP, 1), 'Relu': (CMP, 1), 'LeakyRelu': (MUL + CMP, 1), 'PRelu': (MUL + CMP, 2), 'Elu': (CMP + EXP + ADD + MUL, 1),
    'HardSigmoid': (MUL + ADD + 2 * CMP, 1), 'HardSwish': (2 * MUL + ADD + 2 * CMP, 1), 'Clip': (2 * CMP, 1), 'Reciprocal': (DIV, 1),
    'Silu': (EXP + MUL, 1), 'Gelu': (EXP + 2 * MUL, 1), 'Greater': (CMP, 2), 'Less': (CMP, 2), 'Equal': (CMP, 2), 'Floor': (CMP, 1),
    'GreaterOrEqual': (CMP, 2), 'LessOrEqual': (CMP, 2), 'Atan': (2 * ATAN, 1),
    'Identity': (0, 1), 'Dropout': (0, 1), 'Erf': (0, 1), 'InstanceNormalization': (2 * ADD + MUL + DIV, 3),
    'LpNormalization': (EXP + ADD, 1), 'Relu6': (2 * CMP, 1), 'Round': (CMP, 1), 'Not': (CMP, 1), 'And': (CMP, 2), 'Or': (CMP, 2),
    'Xor': (CMP, 2), 'Where': (0, 3), 'LogitSoftCapping': (TANH + MUL + DIV, 1), 'ImageScaler': (ADD + MUL, 1),
    'BatchNormalization': (ADD + SQRT + DIV + ADD + MUL, 5), 'QuantizeLinear': (MUL + ADD, 3), 'DequantizeLinear': (MUL + ADD, 3),
}


COMPUTED = ('Greater', 'Less', 'Equal', 'GreaterOrEqual', 'LessOrEqual', 'ReduceL2')     # shapes come from a real evaluation


def h_elem(E, op, rank, static):
    w, nin = ELEM[op]
    x = dims(E, 'x', rank, 1, 24 if op in COMPUTED else D)
    ins = [E.t('x', x, np.float32)]
    for i in range(1, nin):
        if op in ('BatchNormalization', 'InstanceNormalization'):
            s = [x[1]]
        elif op in ('QuantizeLinear', 'DequantizeLinear'):
            s = [1]
        elif op == 'PRelu':
            s = [x[1]] + [1] * (rank - 2)
        else:
            # the second operand is equal or broadcast along the first axis, or larger than the first
            one = E.bool(f'one{i}')
            s = [E.ite(one, 1, x[0])] + x[1:]
        ins.append(E.t(f'i{i}', s, np.float32))
    st = tuple(range(1, nin)) if static else ()
    got, outs = profile(E, op, {}, ins, 1, st)
    verdict(E, op, got, outs, vol(E, x) * w, ins, st)


def h_nary(E, op, n, rank):
    x = dims(E, 'x', rank, 1, D)
    ins = [E.t(f'x{i}', x, np.float32) for i in range(n)]
    got, outs = profile(E, op, {}, ins)
    verdict(E, op, got, outs, vol(E, x) * max(1, n - 1), ins)


def h_move(E, op, attrs, shapes, extra=()):
    """data movement costs nothing"""
    ins = [E.t(f'x{i}', dims(E, f'x{i}_', r, 1, 64) if not isinstance(r, list) else r, np.float32) for i, r in enumerate(shapes)]
    for i, v in enumerate(extra):
        ins.append(E.t(f'p{i}', value=E.array(v, np.int64)))
    st = tuple(range(len(shapes), len(ins)))
    got, outs = profile(E, op, attrs, ins, 1, st)
    verdict(E, op, got, outs, 0, ins, st)


def h_reduce(E, op, rank, w):
    x = dims(E, 'x', rank, 1, 24 if op in COMPUTED else D)
    ins = [E.t('x', x, np.float32)]
    got, outs = profile(E, op, {'axes': [E.choice('ax', list(range(-rank, rank)))], 'keepdims': E.choice('k', [0, 1])}, ins)
    verdict(E, op, got, outs, vol(E, x) * w, ins)


def h_lnorm(E, rank):
    x = dims(E, 'x', rank, 1, D)
    ax = E.choice('ax', list(range(-rank, rank)))
    a = ax % rank
    ins = [E.t('x', x, np.float32), E.t('s', x[a:], np.float32), E.t('b', x[a:], np.float32)]
    got, outs = profile(E, 'LayerNormalization', {'axis': ax}, ins, 1, (1, 2))
    groups = prod(x[:a]) if a else 1
    verdict(E, 'LayerNormalization', got, outs, vol(E, x) * (3 * MUL + 4 * ADD) + groups * (ADD + SQRT + DIV), ins, (1, 2))


def h_gap(E, rank):
    x = dims(E, 'x', rank, 1, D)
    ins = [E.t('x', x, np.float32)]
    got, outs = profile(E, 'GlobalAveragePool', {}, ins)
    verdict(E, 'GlobalAveragePool', got, outs, vol(E, x) * ADD + x[0] * x[1] * DIV, ins)


def h_lrn(E, size):
    x = dims(E, 'x', 4, 1, D)
    s = E.int('size', 1, 9)
    ins = [E.t('x', x, np.float32)]
    got, outs = profile(E, 'LRN', {'size': s}, ins)
    verdict(E, 'LRN', got, outs, vol(E, x) * (DIV + EXP + ADD + s * MUL), ins)


def h_resize(E, op, mode, w):
    x = dims(E, 'x', 4, 1, 64)
    k = [1, 1] + E.ints('k', 2, 1, 4)
    ins = [E.t('x', x, np.float32)]
    if op == 'Resize':
        ins.append(E.t('', []))
    ins.append(E.t('scales', value=E.array([v * 1.0 for v in k], np.float32)))
    st = (len(ins) - 1,)
    got, outs = profile(E, op, {'mode': mode}, ins, 1, st)
    verdict(E, op, got, outs, vol(E, outs[0].get_shape()) * w, ins, st)


# ------------------------------------------------------------------ convolutions, pooling
def h_conv(E, op, nd, bias, static):
    n, c, m, g = E.int('n', 1, 64), E.int('cg', 1, 64), E.int('mg', 1, 64), E.int('g', 1, 8)
    x = [n, c * g] + E.ints('x', nd, 8, 64)
    k = E.ints('k', nd, 1, 8)
    dt = np.float32 if op == 'Conv' else np.uint8
    X, W = E.t('X', x, dt), E.t('W', [m * g, c] + k, dt)
    z = lambda nm, d=np.uint8: E.t(nm, [1], d)
    if op == 'Conv':
        ins = [X, W] + ([E.t('B', [m * g], dt)] if bias else [])
        st = tuple(range(1, len(ins)))
    elif op == 'ConvInteger':
        ins = [X, W]
        st = (1,)
    else:
        ins = [X, z('xs', np.float32), z('xz'), W, z('ws', np.float32), z('wz'), z('ys', np.float32), z('yz')]
        if bias:
            ins.append(E.t('B', [m * g], np.int32))
        st = tuple(range(1, len(ins)))
    if not static:
        st = ()
    attrs = {'group': g, 'kernel_shape': tuple(k), 'strides': (1,) * nd, 'dilations': (1,) * nd, 'pads': (0,) * (2 * nd)}
    got, outs = profile(E, op, attrs, ins, 1, st)
    o = outs[0].get_shape()
    verdict(E, op, got, outs, prod(o) * c * prod(k) + (prod(o) if bias else 0), ins, st)


def h_convt(E, nd, bias, given):
    n, c, m, g = E.int('n', 1, 16), E.int('cg', 1, 16), E.int('mg', 1, 16), E.int('g', 1, 4)
    x = [n, c * g] + E.ints('x', nd, 1, 32)
    k = E.ints('k', nd, 1, 4)
    s = E.ints('s', nd, 1, 3)
    ins = [E.t('X', x, np.float32), E.t('W', [c * g, m] + k, np.float32)] + ([E.t('B', [m * g], np.float32)] if bias else [])
    attrs = {'group': g, 'kernel_shape': tuple(k), 'strides': tuple(s), 'dilations': (1,) * nd, 'pads': (0,) * (2 * nd)}
    st = tuple(range(1, len(ins)))
    got, outs = profile(E, 'ConvTranspose', attrs, ins, 1, st)
    o = outs[0].get_shape()
    verdict(E, 'ConvTranspose', got, outs, prod(x) * m * prod(k) + (prod(o) if bias else 0), ins, st)


def h_pool(E, op, nd):
    x = [E.int('n', 1, 64), E.int('c', 1, 64)] + E.ints('x', nd, 8, 64)
    k = E.ints('k', nd, 1, 8)
    ins = [E.t('X', x, np.float32)]
    got, outs = profile(E, op, {'kernel_shape': tuple(k), 'strides': (1,) * nd, 'pads': (0,) * (2 * nd)}, ins)
    verdict(E, op, got, outs, prod(outs[0].get_shape()) * prod(k), ins)


# ------------------------------------------------------------------ products
def h_matmul(E, op, ra, rb, bshared):
    k, m, n = E.int('k', 1, D), E.int('m', 1, D), E.int('n', 1, D)
    nb = max(ra, rb) - 2
    batch = [E.int(f'b{i}', 1, 64) for i in range(max(nb, 0))]
    a = ([] if ra == 1 else batch[len(batch) - (ra - 2):] if ra > 2 else []) + ([m] if ra > 1 else []) + [k]
    b = (batch[len(batch) - (rb - 2):] if rb > 2 else []) + ([k, n] if rb > 1 else [k])
    if bshared and rb > 2:
        b = [1] * (rb - 2) + b[-2:]
        if ra < rb:
            batch = [1] * (rb - ra) + batch[rb - ra:]
    out = batch + ([m] if ra > 1 else []) + ([n] if rb > 1 else [])
    dt = np.uint8 if op != 'MatMul' else np.float32
    if op == 'QLinearMatMul':
        z = lambda nm: E.t(nm, [1], np.uint8)
        s = lambda nm: E.t(nm, [1], np.float32)
        ins = [E.t('A', a, dt), s('as'), z('az'), E.t('B', b, dt), s('bs'), z('bz'), s('ys'), z('yz')]
        st = (3,)
    else:
        ins = [E.t('A', a, dt), E.t('B', b, dt)]
        st = (1,)
    got, outs = profile(E, op, {}, ins, 1, st)
    verdict(E, op, got, outs, vol(E, out) * k, ins, st)


def h_gemm(E, ta, tb, bias):
    m, k, n = E.int('m', 1, D), E.int('k', 1, D), E.int('n', 1, D)
    ins = [E.t('A', [k, m] if ta else [m, k], np.float32), E.t('B', [n, k] if tb else [k, n], np.float32)]
    if bias:
        ins.append(E.t('C', [n], np.float32))
    st = tuple(range(1, len(ins)))
    attrs = {}
    if ta is not None:
        attrs['transA'] = ta
    if tb is not None:
        attrs['transB'] = tb
    got, outs = profile(E, 'Gemm', attrs, ins, 1, st)
    verdict(E, 'Gemm', got, outs, m * n * k + (m * n if bias else 0), ins, st)


def h_einsum(E, eq, nell):
    lhs, rhs = eq.split('->')
    size = {c: E.int(f'n_{c}', 0, 256) for c in sorted({c for c in lhs if c.isalpha()})}
    ell = [E.int(f'e{i}', 0, 64) for i in range(nell)]
    ins = []
    for i, t in enumerate(lhs.split(',')):
        s = []
        for c in t.replace('...', '.'):
            s += ell if c == '.' else [size[c]]
        ins.append(E.t(f'i{i}', s, np.float32))
    got, outs = profile(E, 'Einsum', {'equation': eq.encode()}, ins, 1, ())
    verdict(E, 'Einsum', got, outs, prod(list(size.values()) + ell), ins)


def h_gather(E, rank, ri):
    x = dims(E, 'x', rank, 1, D)
    idx = dims(E, 'i', ri, 1, D)
    ax = E.choice('ax', list(range(-rank, rank)))
    a = ax % rank
    ins = [E.t('x', x, np.float32), E.t('i', idx, np.int64)]
    got, outs = profile(E, 'Gather', {'axis': ax}, ins, 1, (0,))
    w = x[:a] + idx + x[a + 1:]
    verdict(E, 'Gather', got, outs, 0, ins, (0,), weights=vol(E, w))


# ------------------------------------------------------------------ recurrent
def h_rnn(E, op, nd, bias):
    gates = 4 if op == 'LSTM' else 3
    seq, b, inp, h = E.int('seq', 1, 256), E.int('b', 1, 64), E.int('in', 1, 256), E.int('h', 1, 256)
    ins = [E.t('X', [seq, b, inp], np.float32), E.t('W', [nd, gates * h, inp], np.float32), E.t('R', [nd, gates * h, h], np.float32)]
    if bias:
        ins.append(E.t('B', [nd, 2 * gates * h], np.float32))
    st = tuple(range(1, len(ins)))
    attrs = {'hidden_size': h, 'direction': b'bidirectional' if nd == 2 else b'forward'}
    got, outs = profile(E, op, attrs, ins, 3 if op == 'LSTM' else 2, st)
    ht = seq * b * nd * h
    gemm = (nd * gates * h * inp + nd * gates * h * h) * b * seq
    gb = nd * 2 * gates * h * b * seq if bias else 0
    if op == 'LSTM':
        rest = ht * (4 * ADD + 3 * EXP + 2 * TANH + ADD + 3 * MUL)
    else:
        rest = ht * (3 * ADD + 2 * EXP + TANH + 2 * ADD + 3 * MUL)
    verdict(E, op, got, outs, gemm + gb + rest, ins, st)


# ------------------------------------------------------------------ wider operand patterns
BINARY = ('Add', 'Sub', 'Mul', 'Div', 'Mod', 'Pow', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor')


def bcast(E, ranks, hi):
    """operand shapes that broadcast: each extent of each operand is 1 or that of the result"""
    n = max(ranks)
    full = [E.int(f'd{i}', 1, hi) for i in range(n)]
    shapes, cover = [], [[] for _ in full]
    for t, r in enumerate(ranks):
        s = []
        for i in range(n - r, n):
            one = E.bool(f'one{t}_{i}')
            cover[i].append(one)
            s.append(E.ite(one, 1, full[i]))
        shapes.append(s)
    return shapes, [E.ite(E.all(*c), 1, d) for c, d in zip(cover, full)]


def h_bcast(E, op, ranks, static):
    shapes, out = bcast(E, ranks, 6 if op in COMPUTED else D)
    dt = np.bool_ if op in ('And', 'Or', 'Xor') else np.float32
    ins = [E.t(f'i{i}', s, np.bool_ if op == 'Where' and i == 0 else dt) for i, s in enumerate(shapes)]
    w = 1 if op in ('Min', 'Max', 'Sum') else ELEM[op][0]
    if op in ('Min', 'Max', 'Sum'):
        w = max(1, len(ranks) - 1)
    got, outs = profile(E, op, {}, ins, 1, static)
    E.check(E.same(outs[0].get_shape(), out), f'{op}: output shape')
    verdict(E, op, got, outs, vol(E, outs[0].get_shape()) * w, ins, static)


def h_clip(E, rank):
    x = dims(E, 'x', rank, 1, D)
    k = E.choice('operands', [0, 1, 2, 3])
    b = lambda n: E.t(n, value=E.array(np.array([1.0], np.float32), np.float32))
    ins = [E.t('x', x, np.float32)] + [[], [b('lo')], [b('lo'), b('hi')], [E.t('', []), b('hi')]][k]
    st = tuple(range(1, len(ins))) if k < 3 else (2,)
    got, outs = profile(E, 'Clip', {}, ins, 1, st)
    verdict(E, 'Clip', got, outs, vol(E, x) * 2, ins, st)


def h_reduce2(E, op, rank, w, how):
    """several axes, as attribute or operand, or none: what is read counts"""
    x = dims(E, 'x', rank, 1, 8 if op in COMPUTED else D)
    axes = E.choice('axes', [list(c) for n in range(1, rank + 1) for c in __import__('itertools').combinations(range(rank), n)])
    sg = E.choice('sign', [0, 1])
    axes = [a - rank * sg for a in axes]
    ins = [E.t('x', x, np.float32)]
    attrs = {'keepdims': E.choice('k', [0, 1])}
    st = ()
    if how == 'attr':
        attrs['axes'] = axes
    elif how == 'operand':
        ins.append(E.t('a', value=E.array(axes, np.int64)))
        st = (1,)
    got, outs = profile(E, op, attrs, ins, 1, st)
    verdict(E, op, got, outs, vol(E, x) * w, ins, st)


def h_window(E, op, nd, mode, bias):
    """any stride, dilation, padding: one product per output element and kernel element"""
    x, k, s, d, pb, pe = window(E, nd, mode, 40, 4, 3, 5, True)
    n, c, m, g = E.int('n', 1, 16), E.int('cg', 1, 16), E.int('mg', 1, 16), E.choice('g', [1, 2, 3, 8])
    ap = E.choice('auto', AUTO[mode])
    attrs = {'strides': s, 'dilations': d, 'kernel_shape': k}
    if mode == 'notset':
        attrs['pads'] = pb + pe
    if ap is not None:
        attrs['auto_pad'] = ap
    want = []
    for i in range(nd):
        ke = (k[i] - 1) * d[i] + 1
        want.append((x[i] + s[i] - 1) // s[i] if mode == 'same' else (x[i] - ke) // s[i] + 1 if mode == 'valid' else (x[i] + pb[i] + pe[i] - ke) // s[i] + 1)
    if op in ('MaxPool', 'AveragePool'):
        ins = [E.t('X', [n, c] + x, np.float32)]
        two = op == 'MaxPool' and E.choice('Indices', [False, True])
        got, outs = profile(E, op, attrs, ins, 2 if two else 1)
        E.check(E.same(outs[0].get_shape(), [n, c] + want), f'{op}: output shape')
        ov = vol(E, outs[0].get_shape())
        verdict(E, op, got, outs, ov * prod(k), ins)
        return
    attrs['group'] = g
    dt = np.float32 if op == 'Conv' else np.uint8
    X, W = E.t('X', [n, c * g] + x, dt), E.t('W', [m * g, c] + k, dt)
    if op == 'QLinearConv':
        z = lambda nm, t=np.uint8: E.t(nm, [1], t)
        ins = [X, z('xs', np.float32), z('xz'), W, z('ws', np.float32), z('wz'), z('ys', np.float32), z('yz')] + ([E.t('B', [m * g], np.int32)] if bias else [])
        st = (3,) + ((8,) if bias else ())
    else:
        ins = [X, W] + ([E.t('B', [m * g], dt)] if bias else [])
        st = tuple(range(1, len(ins)))
    got, outs = profile(E, op, attrs, ins, 1, st)
    E.check(E.same(outs[0].get_shape(), [n, m * g] + want), f'{op}: output shape')
    ov = vol(E, outs[0].get_shape())
    verdict(E, op, got, outs, ov * c * prod(k) + (ov if bias else 0), ins, st)


def h_convt2(E, nd, bias):
    n, c, m, g = E.int('n', 1, 16), E.int('cg', 1, 16), E.int('mg', 1, 16), E.choice('g', [1, 2, 3])
    x, k, s, d = E.ints('x', nd, 4, 32), E.ints('k', nd, 1, 4), E.ints('s', nd, 1, 3), E.ints('d', nd, 1, 2)
    p = E.ints('p', 2 * nd, 0, 1)
    op = E.ints('op', nd, 0, 1)
    ins = [E.t('X', [n, c * g] + x, np.float32), E.t('W', [c * g, m] + k, np.float32)] + ([E.t('B', [m * g], np.float32)] if bias else [])
    st = tuple(range(1, len(ins)))
    attrs = {'group': g, 'kernel_shape': k, 'strides': s, 'dilations': d, 'pads': p, 'output_padding': op}
    got, outs = profile(E, 'ConvTranspose', attrs, ins, 1, st)
    ov = vol(E, outs[0].get_shape())
    verdict(E, 'ConvTranspose', got, outs, n * c * g * prod(x) * m * prod(k) + (ov if bias else 0), ins, st)


def h_matmul_b(E, op, ra, rb):
    """every batch axis of either operand may be 1"""
    k, m, n = E.int('k', 1, D), E.int('m', 1, D), E.int('n', 1, D)
    (a, b), out = bcast(E, (ra - 2, rb - 2), 64)
    dt = np.float32 if op == 'MatMul' else np.uint8
    A, B = a + [m, k], b + [k, n]
    if op == 'QLinearMatMul':
        z, q = (lambda nm: E.t(nm, [1], np.uint8)), (lambda nm: E.t(nm, [1], np.float32))
        ins, st = [E.t('A', A, dt), q('as'), z('az'), E.t('B', B, dt), q('bs'), z('bz'), q('ys'), z('yz')], (3,)
    else:
        ins, st = [E.t('A', A, dt), E.t('B', B, dt)], (1,)
        if op == 'MatMulInteger':
            ins += [E.t('az', [1], dt), E.t('bz', [1], dt)][:E.choice('zero points', [0, 1, 2])]
    got, outs = profile(E, op, {}, ins, 1, st)
    E.check(E.same(outs[0].get_shape(), out + [m, n]), f'{op}: output shape')
    verdict(E, op, got, outs, vol(E, outs[0].get_shape()) * k, ins, st)


def h_einsum2(E, eq, nell):
    """any equation, every ellipsis extent of every operand possibly 1"""
    e = eq.replace(' ', '')
    lhs = e.split('->')[0]
    size = {c: E.int(f'n_{c}', 0, 64) for c in sorted({c for c in lhs if c.isalpha()})}
    m = max(nell) if nell else 0
    ell = [E.int(f'e{i}', 0, 16) for i in range(m)]
    cover = [[] for _ in ell]
    ins = []
    for ti, t in enumerate(lhs.split(',')):
        shp = []
        for c in t.replace('...', '.'):
            if c == '.':
                for j in range(m - nell[ti], m):
                    one = E.bool(f'one{ti}_{j}')
                    cover[j].append(one)
                    shp.append(E.ite(one, 1, ell[j]))
            else:
                shp.append(size[c])
        ins.append(E.t(f'i{ti}', shp, np.float32))
    ell = [E.ite(E.all(*c), 1, x) for c, x in zip(cover, ell)]
    got, outs = profile(E, 'Einsum', {'equation': eq.encode()}, ins)
    verdict(E, 'Einsum', got, outs, prod(list(size.values()) + ell), ins)


def h_rnn2(E, op, nd, layout, nout):
    """lengths and states given or not, either layout"""
    gates = 4 if op == 'LSTM' else 3
    seq, b, inp, h = E.int('seq', 1, 256), E.int('b', 1, 64), E.int('in', 1, 256), E.int('h', 1, 256)
    st = [b, nd, h] if layout else [nd, b, h]
    ins = [E.t('X', [b, seq, inp] if layout else [seq, b, inp], np.float32), E.t('W', [nd, gates * h, inp], np.float32), E.t('R', [nd, gates * h, h], np.float32)]
    k = E.choice('operands', [3, 4, 5, 6, 7])
    bias = k > 3 and E.choice('bias', [True, False])
    if k > 3:
        ins.append(E.t('B', [nd, 2 * gates * h], np.float32) if bias else E.t('', []))
    if k > 4:
        ins.append(E.t('len', [b], np.int32) if k == 5 else E.t('', []))
    if k > 5:
        ins.append(E.t('h0', st, np.float32))
    if k > 6 and op == 'LSTM':
        ins.append(E.t('c0', st, np.float32))
    stat = (1, 2) + ((3,) if bias else ()) + ((5,) if k > 5 else ())
    attrs = {'direction': b'bidirectional' if nd == 2 else b'reverse', 'layout': layout}
    if E.choice('hidden', [True, False]):
        attrs['hidden_size'] = h
    got, outs = profile(E, op, attrs, ins, nout, stat)
    ht = seq * b * nd * h
    gemm = (nd * gates * h * inp + nd * gates * h * h) * b * seq
    gb = nd * 2 * gates * h * b * seq if bias else 0
    rest = ht * (4 * ADD + 3 * EXP + 2 * TANH + ADD + 3 * MUL) if op == 'LSTM' else ht * (3 * ADD + 2 * EXP + TANH + 2 * ADD + 3 * MUL)
    verdict(E, op, got, outs, gemm + gb + rest, ins, stat)


def h_moved(E, name):
    """operators that move, select or generate elements cost no MACs; all their outputs count as activations"""
    m = MOVED[name]
    x = [E.int(f'x{i}', 4, 64) if d == 'n' else d for i, d in enumerate(m[1])]
    ins = [E.t('x', x, np.float32)]
    for i, v in enumerate(m[2]):
        v = np.array(v) if not hasattr(v, 'dtype') else v
        ins.append(E.t(f'p{i}', value=E.array(v, v.dtype)))
    stat = E.choice('static', [(), tuple(range(1, len(ins)))])
    got, outs = profile(E, m[0], dict(m[3]), ins, m[4], stat)
    verdict(E, m[0], got, outs, m[5] * vol(E, x) if len(m) > 5 else 0, ins, stat)


_f, _i = (lambda *v: np.array(v, np.float32)), (lambda *v: np.array(v, np.int64))
MOVED = {
    'Squeeze': ('Squeeze', [1, 'n', 1], [_i(0, 2)], {}, 1), 'Unsqueeze': ('Unsqueeze', ['n', 'n'], [_i(0, -1)], {}, 1), 'Slice': ('Slice', ['n', 'n'], [_i(1, 0), _i(3, 4), _i(0, 1), _i(1, 2)], {}, 1),
    'Pad': ('Pad', ['n', 'n'], [_i(0, 1, 2, 3)], {}, 1), 'Pad-value': ('Pad', ['n', 'n'], [_i(0, 1, 2, 3), _f(1.5)], {'mode': b'constant'}, 1), 'Expand': ('Expand', ['n', 1, 'n'], [_i(2, 1, 5, 1)], {}, 1),
    'Tile': ('Tile', ['n', 'n'], [_i(2, 3)], {}, 1), 'GatherElements': ('GatherElements', [4, 4], [_i([0, 1, 1], [2, 2, 0])], {'axis': 1}, 1), 'GatherND': ('GatherND', [4, 'n'], [_i([0], [1], [3])], {}, 1),
    'ScatterElements': ('ScatterElements', ['n', 'n'], [_i([0, 1]), _f([1, 2])], {}, 1), 'ScatterND': ('ScatterND', ['n', 'n'], [_i([0, 1]), _f(1)], {}, 1), 'TopK': ('TopK', ['n', 9], [_i(4)], {}, 2),
    'OneHot': ('OneHot', ['n', 'n'], [_i(7), _f(0, 1)], {}, 1), 'Shape': ('Shape', ['n', 'n', 'n'], [], {}, 1), 'Split3': ('Split', ['n', 7], [_i(2, 1, 4)], {'axis': 1}, 3), 'Split4': ('Split', [8, 'n'], [], {'axis': 0}, 4),
    'Transpose4': ('Transpose', ['n', 'n', 'n', 'n'], [], {'perm': [0, 2, 3, 1]}, 1), 'Trilu': ('Trilu', ['n', 'n'], [], {}, 1), 'ArgMax': ('ArgMax', [5, 6], [], {'axis': 1}, 1), 'Dropout2': ('Dropout', ['n', 'n'], [], {}, 2),
    'RandomUniformLike': ('RandomUniformLike', ['n', 'n'], [], {}, 1), 'RandomNormalLike': ('RandomNormalLike', ['n', 'n'], [], {}, 1), 'Reshape': ('Reshape', ['n', 'n', 'n'], [_i(0, -1)], {}, 1),
    'DepthToSpace': ('DepthToSpace', ['n', 18, 'n', 'n'], [], {'blocksize': 3}, 1), 'Concat4': ('Concat', [2, 4], [np.ones((1, 4), np.float32), np.ones((5, 4), np.float32), np.ones((3, 4), np.float32)], {'axis': 0}, 1),
    'CumSum': ('CumSum', ['n', 'n', 'n'], [_i(1)], {}, 1, ADD), 'Hardmax': ('Hardmax', ['n', 'n'], [], {}, 1, ADD), 'LpNormalization': ('LpNormalization', ['n', 'n', 'n'], [], {'axis': 1, 'p': 1}, 1, EXP + ADD),
    'LayerNormalization-2': ('LayerNormalization', ['n', 1], [_f(2)], {'axis': -1}, 1, 3 * MUL + 4 * ADD + ADD + SQRT + DIV), 'LayerNormalization-outputs': ('LayerNormalization', ['n', 1], [_f(2), _f(1)], {}, 3, 3 * MUL + 4 * ADD + ADD + SQRT + DIV),
    'QuantizeLinear-axis': ('QuantizeLinear', ['n', 3], [_f(1, 2, 3), np.array([0, 1, 2], np.uint8)], {'axis': 1}, 1, MUL + ADD), 'QuantizeLinear-2': ('QuantizeLinear', ['n', 3], [_f(1)], {}, 1, MUL + ADD),
    'BatchNormalization-train': ('BatchNormalization', ['n', 2, 'n'], [_f(1, 1), _f(0, 0), _f(0, 0), _f(1, 1)], {'training_mode': 1}, 3, ADD + SQRT + DIV + ADD + MUL),
}


EQ = [('ij,jk->ik', 0), ('bij,bjk->bik', 0), ('bhid,bhjd->bhij', 0), ('i,j->ij', 0), ('ij->ji', 0), ('ij->i', 0), ('...ij,...jk->...ik', 1),
      ('...ij,...jk->...ik', 2), ('b...d,dk->b...k', 1), ('b...d,dk->b...k', 2), ('bhwc,hkc->bhwk', 0), ('bij,bjk,bkl->bil', 0), ('...ij->...ji', 2)]


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for op in ELEM:
        ranks = (1, 2, 3, 4) if op not in ('BatchNormalization', 'InstanceNormalization', 'PRelu') else (2, 4)
        for r in ranks if th else ranks[1::2]:
            for st in ((False, True) if ELEM[op][1] > 1 else (False,)):
                obs.append(Ob(f'{op}-r{r}{"-static" if st else ""}', h_elem, dict(op=op, rank=r, static=st)))
    for op in ('Min', 'Max', 'Sum'):
        for n in (2, 3, 4):
            obs.append(Ob(f'{op}-{n}', h_nary, dict(op=op, n=n, rank=3)))
    obs += [Ob('Transpose', h_move, dict(op='Transpose', attrs={'perm': [1, 0, 2]}, shapes=[3])),
            Ob('Concat', h_move, dict(op='Concat', attrs={'axis': 1}, shapes=[[2, 3, 4], [2, 5, 4]])),
            Ob('Flatten', h_move, dict(op='Flatten', attrs={'axis': 1}, shapes=[4])),
            Ob('Unsqueeze', h_move, dict(op='Unsqueeze', attrs={'axes': [0]}, shapes=[3])),
            Ob('Cast', h_move, dict(op='Cast', attrs={'to': 7}, shapes=[3])),
            Ob('Reshape', h_move, dict(op='Reshape', attrs={}, shapes=[3], extra=[[-1]])),
            Ob('DepthToSpace', h_move, dict(op='DepthToSpace', attrs={'blocksize': 2}, shapes=[[2, 8, 3, 5]])),
            Ob('Split', h_move, dict(op='Split', attrs={'axis': 0, 'split': [2]}, shapes=[[2, 3]]))]
    for op, w in (('ReduceMean', ADD), ('ReduceSum', ADD), ('ReduceProd', MUL), ('ReduceMin', CMP), ('ReduceMax', CMP), ('ReduceL2', ADD + SQRT)):
        for r in (2, 3, 4) if th else (3,):
            obs.append(Ob(f'{op}-r{r}', h_reduce, dict(op=op, rank=r, w=w)))
    for r in (2, 3, 4):
        obs.append(Ob(f'LayerNormalization-r{r}', h_lnorm, dict(rank=r)))
    for r in (3, 4, 5):
        obs.append(Ob(f'GlobalAveragePool-r{r}', h_gap, dict(rank=r)))
    obs.append(Ob('LRN', h_lrn, dict(size=5)))
    for op in ('Resize', 'Upsample'):
        for mode, w in ((b'nearest', 0), (b'linear', 4), (b'cubic', 8)):
            obs.append(Ob(f'{op}-{mode.decode()}', h_resize, dict(op=op, mode=mode, w=w)))
    for nd in (1, 2, 3):
        for bias in (False, True):
            for st in (False, True):
                obs.append(Ob(f'Conv-{nd}d-{bias}-{st}', h_conv, dict(op='Conv', nd=nd, bias=bias, static=st), weight=nd * 2))
            obs.append(Ob(f'QLinearConv-{nd}d-{bias}', h_conv, dict(op='QLinearConv', nd=nd, bias=bias, static=True), weight=nd * 2))
            obs.append(Ob(f'ConvTranspose-{nd}d-{bias}', h_convt, dict(nd=nd, bias=bias, given=False), weight=nd * 2))
        obs.append(Ob(f'ConvInteger-{nd}d', h_conv, dict(op='ConvInteger', nd=nd, bias=False, static=True), weight=nd * 2))
        for op in ('MaxPool', 'AveragePool'):
            obs.append(Ob(f'{op}-{nd}d', h_pool, dict(op=op, nd=nd)))
    R = [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4), (3, 1), (1, 3)] + ([(4, 2), (4, 3), (3, 4), (5, 5)] if th else [])
    for op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        for ra, rb in R:
            obs.append(Ob(f'{op}({ra},{rb})', h_matmul, dict(op=op, ra=ra, rb=rb, bshared=False)))
            if rb > 2 and ra > 1:
                obs.append(Ob(f'{op}({ra},{rb}) shared', h_matmul, dict(op=op, ra=ra, rb=rb, bshared=True)))
    for ta in (None, 0, 1):
        for tb in (None, 0, 1):
            for bias in (False, True):
                obs.append(Ob(f'Gemm-{ta}-{tb}-{bias}', h_gemm, dict(ta=ta, tb=tb, bias=bias)))
    for eq, nell in EQ:
        obs.append(Ob(f'Einsum {eq} {nell}', h_einsum, dict(eq=eq, nell=nell)))
    for r in (1, 2, 3):
        for ri in (1, 2):
            obs.append(Ob(f'Gather-{r}-{ri}', h_gather, dict(rank=r, ri=ri)))
    for op in ('LSTM', 'GRU'):
        for nd in (1, 2):
            for bias in (False, True):
                obs.append(Ob(f'{op}-{nd}-{bias}', h_rnn, dict(op=op, nd=nd, bias=bias)))
    RK = [(1, 3), (3, 1), (2, 2), (3, 3), (4, 2), (2, 4)] + ([(1, 1), (2, 3), (3, 2), (4, 4), (1, 4), (4, 1)] if th else [])
    for op in BINARY:
        for j, (ra, rb) in enumerate(RK):
            obs.append(Ob(f'{op}({ra},{rb})', h_bcast, dict(op=op, ranks=(ra, rb), static=[(), (1,), (0,)][j % 3])))
    for op in ('Where', 'Min', 'Max', 'Sum'):
        for ranks in ((2, 2, 2), (1, 2, 3), (3, 1, 2)) + (((2, 2), (2, 1, 2, 1), (1, 1, 2, 2, 1)) if op != 'Where' else ()):
            obs.append(Ob(f'{op}{ranks}', h_bcast, dict(op=op, ranks=ranks, static=(1,))))
    for r in (1, 2, 4):
        obs.append(Ob(f'Clip-{r}', h_clip, dict(rank=r)))
    for op, w in (('ReduceMean', ADD), ('ReduceSum', ADD), ('ReduceProd', MUL), ('ReduceMin', CMP), ('ReduceMax', CMP), ('ReduceL2', ADD + SQRT)):
        for r in (1, 2, 4) if th else (2, 4):
            for how in ('attr', 'operand', 'none'):
                obs.append(Ob(f'{op}-{how}-{r}', h_reduce2, dict(op=op, rank=r, w=w, how=how)))
    for mode in ('notset', 'same', 'valid'):
        for nd in (1, 2, 3):
            for op in ('MaxPool', 'AveragePool'):
                obs.append(Ob(f'{op}-{nd}d-{mode}', h_window, dict(op=op, nd=nd, mode=mode, bias=False)))
            for op, bias in (('Conv', True), ('Conv', False), ('ConvInteger', False), ('QLinearConv', True)):
                obs.append(Ob(f'{op}-{nd}d-{mode}-{bias}', h_window, dict(op=op, nd=nd, mode=mode, bias=bias), weight=nd))
    for nd in (1, 2, 3):
        for bias in (False, True):
            obs.append(Ob(f'ConvTranspose-{nd}d-{bias}-any', h_convt2, dict(nd=nd, bias=bias), weight=nd))
    for op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        for ra, rb in ((3, 3), (3, 4), (4, 3), (4, 4), (2, 4), (4, 2), (5, 3)):
            obs.append(Ob(f'{op}({ra},{rb}) broadcast', h_matmul_b, dict(op=op, ra=ra, rb=rb)))
    for eq in EQS:
        obs.append(Ob(f'Einsum2 {eq}', h_einsum2, dict(eq=eq, nell=[])))
    for eq, nell in (('...ij,...jk->...ik', (1, 1)), ('...ij,...jk->...ik', (2, 1)), ('...ij,...jk->...ik', (0, 2)), ('b...d,dk->b...k', (3, 0)), ('...,...->...', (2, 2)), ('i...,...i->...', (1, 2)), ('...a,...b,...c->...abc', (1, 2, 1))):
        obs.append(Ob(f'Einsum2 {eq} {nell}', h_einsum2, dict(eq=eq, nell=list(nell))))
    for op, nouts in (('LSTM', (1, 3)), ('GRU', (1, 2))):
        for nd in (1, 2):
            for layout in (0, 1):
                for no in nouts:
                    obs.append(Ob(f'{op}-{nd}-{layout}-{no}', h_rnn2, dict(op=op, nd=nd, layout=layout, nout=no)))
    for n in MOVED:
        obs.append(Ob(f'moved-{n}', h_moved, dict(name=n)))
    return obs


BOUNDS = {'all': 'ranks 1-4 (5 for volumetric operators), extents up to 4096 (24 for comparisons and ReduceL2, 64 for convolutions), kernels up to 8 per axis, 1-3 spatial axes, '
                 'groups up to 8; any stride to 4, dilation to 3, padding and auto_pad; every broadcast pattern of two or three operands (five for Max, Min, Sum) of ranks 1-4 and of batch axes of products; '
                 'some 60 einsum equations with broadcast ellipses; one to all axes of reductions, as attribute, operand or left out; one and two recurrent directions, both layouts, with and without bias, lengths and states; '
                 'up to four outputs'}
OUTSIDE = 'rank-0 operands (the tool counts a scalar as zero elements); fused transformer operators (C18)'
ASSUMPTIONS = ['cost weights are the instruction counts documented at the head of node.py']
