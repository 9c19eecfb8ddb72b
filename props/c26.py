"""C26 - evaluating convolution, pooling, normalisation and whole networks gives the ONNX result, every time."""
import itertools
import math
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c06 import mk, check_arr
from .c07 import sum_

f32, f64, i64 = np.float32, np.float64, np.int64


def ref_pads(auto, pads, x, k, o, s, d):
    if auto in (None, 'NOTSET'):
        return pads
    if auto == 'VALID':
        return [0, 0]
    b = []
    for i in range(2):
        tot = max((o[i] - 1) * s[i] + (k[i] - 1) * d[i] + 1 - x[i], 0)
        b.append(tot // 2 if auto == 'SAME_UPPER' else tot - tot // 2)
    return b


def window(E, x, k, how, pmax=1, dmax=2):
    """hyperparameters of a window operator: (attributes, strides, dilations, begin pads, output extents); None when the window does not fit"""
    s = [E.choice(f's{i}', [1, 2]) for i in range(2)]
    d = [E.choice(f'd{i}', list(range(1, dmax + 1))) for i in range(2)]
    attrs, auto, pads = {'strides': s, 'dilations': d}, None, [0, 0, 0, 0]
    if how in ('pads', 'notset', 'ceil'):
        pads = [E.choice(f'p{i}', list(range(pmax + 1))) for i in range(4)]
        attrs['pads'] = pads
        if how == 'notset':
            auto = 'NOTSET'
    elif how == 'ceil0':
        pass
    elif how == 'default':
        if s != [1, 1] or d != [1, 1]:
            return None
        attrs = {}
    else:
        auto = how
        if how != 'VALID' and d != [1, 1]:
            return None
    if auto:
        attrs['auto_pad'] = auto.encode()
    o = []
    for i in range(2):
        win = (k[i] - 1) * d[i] + 1
        if auto in ('SAME_UPPER', 'SAME_LOWER'):
            o.append(-(-x[i] // s[i]))
            continue
        room = x[i] + pads[i] + pads[i + 2] - win
        if room < 0:
            return None
        n = room // s[i] + 1
        if how.startswith('ceil') and room % s[i]:
            n += 1
            if (n - 1) * s[i] >= x[i] + pads[i]:
                return None       # that window would start in the padding behind the input
        o.append(n)
    if how.startswith('ceil'):
        attrs['ceil_mode'] = 1
    return attrs, s, d, ref_pads(auto, pads[:2], x, k, o, s, d), o


def taps(x, k, s, d, b, oh, ow):
    for kh, kw in itertools.product(range(k[0]), range(k[1])):
        h, w = oh * s[0] + kh * d[0] - b[0], ow * s[1] + kw * d[1] - b[1]
        if 0 <= h < x[0] and 0 <= w < x[1]:
            yield kh, kw, h, w


def value(E, node, ins, nout=1, stale=None):
    """evaluate twice into the same result tensors, which hold stale data"""
    outs = [E.t(f'o{i}', []) for i in range(nout)]
    for _ in range(2):
        r = E.call(node.value_infer, ins, outs)
        if not r.ok:
            E.fail(f'value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    return outs


def h_conv(E, xs, ws, how, bias, dt=f32, pmax=1):
    n, c, x, m, k = xs[0], xs[1], list(xs[2:]), ws[0], list(ws[2:])
    p = window(E, x, k, how, pmax)
    if p is None:
        return
    attrs, s, d, b, o = p
    X, W = mk(E, 'x', xs, dt), mk(E, 'w', ws, dt)
    ex, ew = np.array(E.elems(X), dtype=object).reshape(xs), np.array(E.elems(W), dtype=object).reshape(ws)
    ins = [E.t('X', value=X), E.t('W', value=W)]
    eb = [0] * m
    if bias == 'yes':
        B = mk(E, 'b', (m,), dt)
        eb = E.elems(B)
        ins.append(E.t('B', value=B))
    elif bias == 'empty':
        ins.append(E.t('', []))
    out = value(E, E.mknode('Conv', attrs, len(ins), 1), ins)[0]
    want = [sum_([eb[q]] + [ex[i, ic, h, w] * ew[q, ic, kh, kw] for ic in range(c) for kh, kw, h, w in taps(x, k, s, d, b, oh, ow)])
            for i, q, oh, ow in itertools.product(range(n), range(m), range(o[0]), range(o[1]))]
    check_arr(E, out, want, (n, m, o[0], o[1]), dt, 'Conv', np.dtype(dt).kind == 'i', obs=False)
    E.check(E.all(*[E.eq(a, b) for a, b in zip(E.elems(ins[0].get_numpy()), ex.reshape(-1))]), 'the input is left unmodified')


def h_convinteger(E, xs, ws, how, zero, pmax=1):
    """int32 convolution of 8-bit data and weights less their zero points (of the weights: one, or one per output channel)"""
    n, c, x, m, k = xs[0], xs[1], list(xs[2:]), ws[0], list(ws[2:])
    p = window(E, x, k, how, pmax)
    if p is None:
        return
    attrs, s, d, b, o = p
    tx, tw = E.choice('types', [(np.uint8, np.int8), (np.int8, np.uint8)])
    X, W = mk(E, 'x', xs, tx, -100, 100), mk(E, 'w', ws, tw, -100, 100)
    ex, ew = np.array(E.elems(X), dtype=object).reshape(xs), np.array(E.elems(W), dtype=object).reshape(ws)
    ins = [E.t('X', value=X), E.t('W', value=W)]
    zx, zw = 0, [0] * m
    if 'x' in zero:
        z = mk(E, 'zx', (1,) if 'vec' in zero else (), tx, -9, 9)
        zx = E.elems(z)[0]
        ins.append(E.t('ZX', value=z))
    elif 'w' in zero:
        ins.append(E.t('', []))
    if 'w' in zero:
        z = mk(E, 'zw', (m,) if 'vec' in zero else (), tw, -9, 9)
        zw = E.elems(z) * (1 if 'vec' in zero else m)
        ins.append(E.t('ZW', value=z))
    out = value(E, E.mknode('ConvInteger', attrs, len(ins), 1), ins)[0]
    want = [sum_([0] + [(ex[i, ic, h, w] - zx) * (ew[q, ic, kh, kw] - zw[q]) for ic in range(c) for kh, kw, h, w in taps(x, k, s, d, b, oh, ow)])
            for i, q, oh, ow in itertools.product(range(n), range(m), range(o[0]), range(o[1]))]
    check_arr(E, out, want, (n, m, o[0], o[1]), np.int32, 'ConvInteger', True, obs=False)
    E.check(E.all(*[E.eq(a, b) for a, b in zip(E.elems(ins[0].get_numpy()), ex.reshape(-1))]), 'the input is left unmodified')


def h_indices(E, xs, k, how, dt, order):
    """the Indices of MaxPool: the flat position of the (first) maximum of each window"""
    x = list(xs[2:])
    p = window(E, x, k, how)
    if p is None:
        return
    attrs, s, d, b, o = p
    X = mk(E, 'x', xs, dt, -9, 9)
    ex = np.array(E.elems(X), dtype=object).reshape(xs)
    if order is not None:
        attrs['storage_order'] = order
    want, wi = [], []
    for i, q, oh, ow in itertools.product(range(xs[0]), range(xs[1]), range(o[0]), range(o[1])):
        best = pos = None
        for _, _, h, w in taps(x, k, s, d, b, oh, ow):
            v, f = ex[i, q, h, w], (i * xs[1] + q) * x[0] * x[1] + (w * x[0] + h if order else h * x[1] + w)
            if best is None:
                best, pos = v, f
            else:
                more = v > best
                best, pos = E.ite(more, v, best), E.ite(more, f, pos)
        if best is None:
            return
        want.append(best)
        wi.append(pos)
    outs = value(E, E.mknode('MaxPool', dict(attrs, kernel_shape=list(k)), 1, 2), [E.t('X', value=X)], 2)
    shp = (xs[0], xs[1], o[0], o[1])
    check_arr(E, outs[0], want, shp, dt, 'MaxPool', True, obs=False)
    check_arr(E, outs[1], wi, shp, i64, 'MaxPool Indices', True, obs=False)


def h_dropout(E, shape, dt):
    X = mk(E, 'x', shape, dt)
    ex = E.elems(X)
    outs = value(E, E.mknode('Dropout', {}, 1, 2), [E.t('X', value=X)], 2)
    check_arr(E, outs[0], ex, shape, dt, 'Dropout', True, obs=False)
    check_arr(E, outs[1], [True] * len(ex), shape, np.bool_, 'Dropout mask', True, obs=False)


def h_bn_train(E, xs, eps, mom, nout, dt):
    """training mode: the statistics are those of the data, the further outputs the updated running ones"""
    c = xs[1]
    X, G, B, M, V = (mk(E, nm, s, dt, *([] if nm != 'v' else [0, 9])) for nm, s in (('x', xs), ('g', (c,)), ('b', (c,)), ('m', (c,)), ('v', (c,))))
    ex = np.array(E.elems(X), dtype=object).reshape(xs)
    g, b, m, v = map(E.elems, (G, B, M, V))
    cols = [[ex[i] for i in np.ndindex(*xs) if i[1] == j] for j in range(c)]
    mean = [sum_(q) / len(q) for q in cols]
    var = [sum_([(a - u) * (a - u) for a in q]) / len(q) for q, u in zip(cols, mean)]
    attrs = {'training_mode': 1}
    if eps is not None:
        attrs['epsilon'] = eps
    if mom is not None:
        attrs['momentum'] = mom
    e, k = 1e-5 if eps is None else eps, 0.9 if mom is None else mom
    sq = [E.elems(E.np.sqrt(E.array([a + e], f64)))[0] for a in var]
    for a in sq:
        E.assume(a > 0.001)
    outs = value(E, E.mknode('BatchNormalization', attrs, 5, nout), [E.t(nm, value=a) for nm, a in (('X', X), ('G', G), ('B', B), ('M', M), ('V', V))], nout)
    check_arr(E, outs[0], [(ex[i] - mean[i[1]]) * (g[i[1]] / sq[i[1]]) + b[i[1]] for i in np.ndindex(*xs)], xs, dt, 'BatchNormalization', False, obs=False)
    for o, run, now, what in zip(outs[1:], (m, v), (mean, var), ('mean', 'variance')):
        check_arr(E, o, [a * k + n * (1 - k) for a, n in zip(run, now)], (c,), dt, f'running {what}', False, obs=False)


def h_maxpool(E, xs, k, how, dt):
    x = list(xs[2:])
    p = window(E, x, k, how)
    if p is None:
        return
    attrs, s, d, b, o = p
    X = mk(E, 'x', xs, dt)
    ex = np.array(E.elems(X), dtype=object).reshape(xs)
    ins = [E.t('X', value=X)]
    want = []
    for i, q, oh, ow in itertools.product(range(xs[0]), range(xs[1]), range(o[0]), range(o[1])):
        v = [ex[i, q, h, w] for _, _, h, w in taps(x, k, s, d, b, oh, ow)]
        if not v:
            return                # a window over padding only: no value is defined
        want.append(E.max(*v) if len(v) > 1 else v[0])
    out = value(E, E.mknode('MaxPool', dict(attrs, kernel_shape=list(k)), 1, 1), ins)[0]
    check_arr(E, out, want, (xs[0], xs[1], o[0], o[1]), dt, 'MaxPool', True, obs=False)


def h_gap(E, xs, dt):
    X = mk(E, 'x', xs, dt)
    ex = np.array(E.elems(X), dtype=object).reshape(xs[0], xs[1], -1)
    out = value(E, E.mknode('GlobalAveragePool', {}, 1, 1), [E.t('X', value=X)])[0]
    check_arr(E, out, [sum_(list(ex[i, j])) / ex.shape[2] for i in range(xs[0]) for j in range(xs[1])], tuple(xs[:2]) + (1,) * (len(xs) - 2), dt, 'GlobalAveragePool', False)


def h_bn(E, xs, eps, dt):
    c = xs[1]
    X, G, B, M = (mk(E, nm, s, dt) for nm, s in (('x', xs), ('g', (c,)), ('b', (c,)), ('m', (c,))))
    V = mk(E, 'v', (c,), dt, 0 if eps else 1, 8)
    ex = np.array(E.elems(X), dtype=object).reshape(xs)
    g, b, m, v = map(E.elems, (G, B, M, V))
    ins = [E.t(nm, value=a) for nm, a in (('X', X), ('G', G), ('B', B), ('M', M), ('V', V))]
    e = 1e-5 if eps is None else eps
    sq = [E.elems(E.np.sqrt(E.array([a + e], f64)))[0] for a in v]
    for a in sq:
        E.assume(a > 0.5)
    out = value(E, E.mknode('BatchNormalization', {} if eps is None else {'epsilon': eps}, 5, 1), ins)[0]
    want = []
    for i in np.ndindex(*xs):
        j = i[1]
        want.append((ex[i] - m[j]) * (g[j] / sq[j]) + b[j])
    check_arr(E, out, want, xs, dt, 'BatchNormalization', False, obs=False)


def h_erf(E, shape, dt):
    X = mk(E, 'x', shape, dt)
    ex = E.elems(X)
    out = value(E, E.mknode('Erf', {}, 1, 1), [E.t('X', value=X)])[0]
    got = E.elems(out.get_numpy())
    E.check(dtype_is(out, dt) and E.same(E.ishape(out.get_numpy()), list(shape)), 'Erf: type and shape')
    for a, b in zip(ex, got):
        E.check(E.close(b, E.m('node').math.erf(a)), 'Erf: value')


def h_chain(E, kind):
    """a network evaluated on two inputs in turn: both results right, the first untouched by the second"""
    dt = f32
    P = {}

    def par(nm, shape):
        P[nm] = mk(E, nm, shape, dt, -4, 4)
        return np.array(E.elems(P[nm]), dtype=object).reshape(shape)
    if kind == 'cnn':
        W, B, FW, FB = par('W', (2, 1, 2, 2)), par('B', (2,)), par('FW', (2, 2)), par('FB', (2,))
        nodes = [out('Conv', 'c', ['x', 'W', 'B'], ['a'], pads=[0, 0, 1, 0], strides=[1, 1]), out('Relu', 'r', ['a'], ['r']), out('MaxPool', 'm', ['r'], ['m'], kernel_shape=[2, 1], strides=[1, 1]),
                 out('GlobalAveragePool', 'g', ['m'], ['g']), out('Flatten', 'f', ['g'], ['f'], axis=1), out('Gemm', 'd', ['f', 'FW', 'FB'], ['y'], transB=1)]
        shape, outs = (1, 1, 2, 2), ['y', 'm']

        def ref(x):
            z = lambda h, w: x[0, 0, h, w] if h < 2 and w < 2 else 0
            a = [[sum_([B[q]] + [z(oh + kh, kw) * W[q, 0, kh, kw] for kh in range(2) for kw in range(2)]) for oh in range(2)] for q in range(2)]
            r = [[E.max(v, 0) for v in row] for row in a]
            m = [E.max(*row) for row in r]
            return {'m': (m, [1, 2, 1, 1]), 'y': ([sum_([FB[j]] + [m[i] * FW[j, i] for i in range(2)]) for j in range(2)], [1, 2])}
    elif kind == 'pool':
        nodes = [out('Neg', 'n', ['x'], ['n']), out('MaxPool', 'm', ['n'], ['m'], kernel_shape=[2, 2], strides=[1, 1], dilations=[1, 1]), out('Identity', 'i', ['m'], ['i']),
                 out('MaxPool', 'k', ['m'], ['k'], kernel_shape=[1, 2]), out('Add', 'a', ['k', 'k'], ['y'])]
        shape, outs = (1, 1, 2, 3), ['y', 'm', 'i', 'k']

        def ref(x):
            m = [E.max(*[-x[0, 0, h, w + o] for h in range(2) for w in range(2)]) for o in range(2)]
            k = E.max(*m)
            return {'m': (m, [1, 1, 1, 2]), 'i': (m, [1, 1, 1, 2]), 'k': ([k], [1, 1, 1, 1]), 'y': ([k + k], [1, 1, 1, 1])}
    else:
        W, S = par('W', (2, 2)), par('S', (2,))
        nodes = [out('MatMul', 'p', ['x', 'W'], ['p']), out('Add', 'q', ['p', 'S'], ['q']), out('ReduceSum', 's', ['q', 'ax'], ['s'], keepdims=1), out('Sub', 'u', ['q', 's'], ['u']),
                 out('Concat', 'k', ['u', 'x'], ['k'], axis=1), out('Split', 'v', ['k'], ['v0', 'v1'], axis=1), out('Transpose', 't', ['v0'], ['t'], perm=[1, 0]), out('Mul', 'w', ['v1', 'v0'], ['y'])]
        shape, outs = (1, 2), ['y', 't', 'p']

        def ref(x):
            p = [sum_([x[0, i] * W[i, j] for i in range(2)]) for j in range(2)]
            q = [p[j] + S[j] for j in range(2)]
            u = [q[j] - (q[0] + q[1]) for j in range(2)]
            return {'p': (p, [1, 2]), 't': (u, [2, 1]), 'y': ([x[0, j] * u[j] for j in range(2)], [1, 2])}
    inits = [(k, v) for k, v in P.items()] + ([('ax', E.array(np.array([1]), i64))] if kind == 'mlp' else [])
    g = mkgraph(E, nodes, [('x', list(shape), dt)], [(o, None, dt) for o in outs], inits)
    runs = []
    for j in range(2):
        X = mk(E, f'x{j}', shape, dt, -4, 4)
        ex = np.array(E.elems(X), dtype=object).reshape(shape)
        r = E.call(g.value_infer, {'x': X})
        if not r.ok:
            E.fail(f'value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        E.check(len(r.val) == len(outs), 'one value per graph output')
        runs.append((ref(ex), list(r.val), X, list(ex.reshape(-1))))
    for j, (want, got, X, ex) in enumerate(runs):
        for o, a in zip(g.output, got):
            v, s = want[o]
            E.check(a is not None and E.same(E.ishape(a), s) and np.dtype(a.dtype) == np.dtype(dt), f'run {j}: shape and type of {o}')
            E.check(E.all(*[E.close(p, q) for p, q in zip(E.elems(a), v)]), f'run {j}: value of {o}')
        E.check(E.all(*[E.eq(p, q) for p, q in zip(E.elems(X), ex)]), f'run {j}: the input is left unmodified')
    for k, v in P.items():
        E.check(E.all(*[E.eq(p, q) for p, q in zip(E.elems(g.tensormap[k].get_numpy()), E.elems(v))]), f'weight {k} is left unmodified')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    add = lambda name, fn, w=1, **cfg: obs.append(Ob(name, fn, cfg, poly=True, weight=w))
    HOWS = ['default', 'pads', 'notset', 'VALID', 'SAME_UPPER', 'SAME_LOWER']
    for how in HOWS:
        add(f'conv-{how}', h_conv, 4, xs=(1, 1, 3, 4), ws=(1, 1, 2, 2) if how != 'VALID' else (1, 1, 2, 3), how=how, bias='yes', pmax=2 if th else 1)
    add('conv-wide', h_conv, 4, xs=(1, 1, 4, 3), ws=(1, 1, 3, 2), how='pads' if th else 'SAME_UPPER', bias='no')
    add('conv-lower3', h_conv, 4, xs=(1, 1, 3, 4), ws=(1, 1, 2, 3), how='SAME_LOWER', bias='empty')
    add('conv-full', h_conv, 4, xs=(2, 2, 2, 3), ws=(2, 2, 2, 2), how='default', bias='yes')
    add('conv-full-empty', h_conv, 4, xs=(2, 3, 2, 2), ws=(3, 3, 1, 2), how='SAME_UPPER', bias='empty')
    add('conv-full-no', h_conv, 4, xs=(1, 2, 2, 3), ws=(2, 2, 1, 2), how='VALID', bias='no', dt=f64)
    for how in ('default', 'pads', 'ceil', 'ceil0', 'VALID', 'SAME_UPPER', 'SAME_LOWER'):
        add(f'maxpool-{how}', h_maxpool, 3, xs=(1, 1, 4, 3), k=(2, 2) if how != 'SAME_LOWER' else (3, 2), how=how, dt=f32)
    add('maxpool-int', h_maxpool, 2, xs=(2, 2, 2, 3), k=(2, 2), how='default', dt=np.int8)
    add('maxpool-u8', h_maxpool, 2, xs=(1, 2, 3, 4), k=(1, 3), how='SAME_UPPER', dt=np.uint8)
    for xs in ((2, 2, 3), (1, 2, 2, 3), (2, 1, 1, 2, 2)):
        add(f'gap-{len(xs)}', h_gap, xs=xs, dt=f64 if len(xs) == 3 else f32)
    for k, xs in enumerate(((3, 2), (2, 2, 2), (1, 3, 2, 1), (1, 2, 1, 2, 2))):
        add(f'bn-{len(xs)}', h_bn, xs=xs, eps=[None, 0.5, 2.0, None][k], dt=f64 if k == 1 else f32)
    for s in ((), (2, 2)):
        add(f'erf-{len(s)}', h_erf, shape=s, dt=f32)
    for how, zero in (('default', ''), ('pads', 'xw'), ('notset', 'xw vec'), ('VALID', 'x'), ('SAME_UPPER', 'w'), ('SAME_LOWER', 'x vec')):
        add(f'convinteger-{how}-{zero}', h_convinteger, 3, xs=(1, 2, 2, 3) if how == 'default' else (1, 1, 3, 3), ws=(2, 2, 2, 2) if how == 'default' else (2, 1, 2, 2), how=how, zero=zero)
    for how, order, xs, k in (('default', None, (1, 1, 2, 3), (2, 2)), ('pads', 0, (1, 1, 2, 2), (2, 1)), ('default', 1, (2, 2, 2, 2), (2, 1)), ('SAME_UPPER', 1, (1, 1, 3, 2), (1, 2)),
                              ('SAME_LOWER', None, (1, 2, 1, 3), (1, 2)), ('VALID', 1, (1, 1, 3, 4), (1, 2))):
        add(f'indices-{how}-{order}', h_indices, 3, xs=xs, k=k, how=how, dt=f32 if order is None else np.int8, order=order)
    for s in ((3,), (2, 2), ()):
        add(f'dropout-{len(s)}', h_dropout, shape=s, dt=f32)
    for k, xs in enumerate(((2, 2), (2, 1, 2), (1, 2, 2, 1), (3, 1))):
        for nout in (1, 3):
            add(f'train-{len(xs)}-{nout}-{k}', h_bn_train, 2, xs=xs, eps=[None, 0.5, 2.0, None][k], mom=[None, 0.5, 0.25, 0.75][k], nout=nout, dt=f64 if k == 1 else f32)
    for k in ('cnn', 'pool', 'mlp'):
        add(f'net-{k}', h_chain, 3, kind=k)
    return obs


BOUNDS = {'conv-': 'inputs up to 3x4, kernels up to 2x3 / 3x2, up to 2 batches and 3 channels, strides and dilations 1..2, each pad 0..1 (0..2 thorough), every auto_pad mode, '
                   'bias given, omitted or empty', 'maxpool-': 'inputs up to 4x3, kernels up to 3x2, strides and dilations 1..2, each pad 0..1, ceil_mode, every auto_pad mode, real and integer data',
          'gap-': 'ranks 3-5', 'bn-': 'ranks 2-5, epsilon given or default', 'erf-': 'ranks 0 and 2', 'train-': '2-4 elements per channel, 1 and 2 channels', 'convinteger-': 'int8/uint8 elements, zero points absent, scalar or per channel', 'net-': 'three networks of 5-8 nodes, two inputs in turn; element values -4..4'}
OUTSIDE = 'larger extents; grouped, 1-D and 3-D convolution and 1-D/3-D max pooling (refused by the code); windows over padding only; training mode of Dropout'
ASSUMPTIONS = ['floating arithmetic idealised as reals; erf and the square root uninterpreted (root of variance + epsilon > 0.5)']
