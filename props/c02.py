"""C02 - spatial window operators: output extents follow the ONNX formulas."""
import numpy as np
from symex.runner import Ob
from .lib import *

AUTO = {'notset': [None, b'NOTSET'], 'same': [b'SAME_UPPER', b'SAME_LOWER'], 'valid': [b'VALID']}


def conv_extent(E, mode, x, k, s, d, pb, pe):
    ke = (k - 1) * d + 1
    if mode == 'same':
        return (x + s - 1) // s
    if mode == 'valid':
        return (x - ke) // s + 1
    return (x + pb + pe - ke) // s + 1


def window(E, r, mode, hi, smax, dmax, kmax, extra_d=True):
    """symbolic geometry of r spatial axes, restricted to valid ones (the window fits)"""
    x = E.ints('x', r, 1, hi)
    k = E.ints('k', r, 1, kmax)
    s = [E.int(f's{i}', 1, smax) for i in range(r)]
    d = [E.int(f'd{i}', 1, dmax) for i in range(r)] if extra_d else [1] * r
    pb = E.ints('pb', r, 0, 5) if mode == 'notset' else [0] * r
    pe = E.ints('pe', r, 0, 5) if mode == 'notset' else [0] * r
    for i in range(r):
        ke = (k[i] - 1) * d[i] + 1
        if mode != 'same':
            E.assume(x[i] + pb[i] + pe[i] >= ke)
    return x, k, s, d, pb, pe


def h_conv(E, op, r, mode, drop, hi, smax=4, dmax=3, kmax=7):
    x, k, s, d, pb, pe = window(E, r, mode, hi, smax, dmax, kmax, 'dilations' not in drop)
    if 'strides' in drop:
        s = [1] * r
    if 'pads' in drop and mode == 'notset':
        for v in pb + pe:
            E.assume(v == 0)
        pb = pe = [0] * r
    n, c, m = E.int('n', 1, 64), E.int('c', 1, 512), E.int('m', 1, 2048)
    attrs = {'strides': s, 'dilations': d, 'pads': pb + pe, 'group': 1, 'kernel_shape': k}
    if mode != 'notset':
        attrs.pop('pads')
    for a in drop:
        attrs.pop(a, None)
    ap = E.choice('auto', AUTO[mode])
    if ap is not None:
        attrs['auto_pad'] = ap
    X = E.t('x', [n, c] + x, np.float32)
    W = E.t('w', [m, c] + k, np.float32)
    out = E.t('o0', [])
    if op == 'QLinearConv':
        ins = [E.t('x', [n, c] + x, np.uint8), E.t('xs', [], np.float32), E.t('xz', [], np.uint8), E.t('w', [m, c] + k, np.uint8),
               E.t('ws', [], np.float32), E.t('wz', [], np.uint8), E.t('ys', [], np.float32), E.t('yz', [], np.uint8)]
        b = E.choice('bias', [False, True])
        if b:
            ins.append(E.t('b', [m], np.int32))
    elif op == 'ConvInteger':
        ins = [E.t('x', [n, c] + x, np.uint8), E.t('w', [m, c] + k, np.uint8)]
    else:
        ins = [X, W] + ([E.t('b', [m], np.float32)] if E.choice('bias', [False, True]) else [])
    nd = E.mknode(op, attrs, len(ins), 1)
    nd.shape_infer(ins, [out])
    want = [n, m] + [conv_extent(E, mode, x[i], k[i], s[i], d[i], pb[i], pe[i]) for i in range(r)]
    check_shapes(E, [out], [want], f'{op}')
    if op == 'Conv':
        E.check(dtype_is(out, np.float32), 'Conv: element type')
    if op == 'QLinearConv':
        E.check(dtype_is(out, np.uint8), 'QLinearConv: element type')


def h_convt(E, r, mode, hi, drop, outshape=False, smax=3, dmax=2, kmax=4):
    x = E.ints('x', r, 1, hi)
    k = E.ints('k', r, 1, kmax)
    s = [E.int(f's{i}', 1, smax) for i in range(r)] if 'strides' not in drop else [1] * r
    d = [E.int(f'd{i}', 1, dmax) for i in range(r)] if 'dilations' not in drop else [1] * r
    op_ = E.ints('op', r, 0, 2) if 'output_padding' not in drop else [0] * r
    pb = E.ints('pb', r, 0, 3) if mode == 'notset' and 'pads' not in drop else [0] * r
    pe = E.ints('pe', r, 0, 3) if mode == 'notset' and 'pads' not in drop else [0] * r
    n, c, m, g = E.int('n', 1, 8), E.int('c', 1, 64), E.int('m', 1, 64), E.choice('g', [1, 2])
    attrs = {'strides': s, 'dilations': d, 'pads': pb + pe, 'output_padding': op_, 'group': g, 'kernel_shape': k}
    if mode != 'notset':
        attrs.pop('pads')
    for a in drop:
        attrs.pop(a, None)
    ap = E.choice('auto', AUTO[mode])
    if ap is not None:
        attrs['auto_pad'] = ap
    want = []
    for i in range(r):
        full = s[i] * (x[i] - 1) + op_[i] + (k[i] - 1) * d[i] + 1
        if mode == 'same':
            want.append(x[i] * s[i])
        else:
            want.append(full - pb[i] - pe[i])
            E.assume(want[-1] >= 1)
    if outshape:
        want = E.ints('os', r, 1, 50)
        attrs['output_shape'] = want
    out = E.t('o0', [])
    ins = [E.t('x', [n, c * g] + x, np.float32), E.t('w', [c * g, m] + k, np.float32)]
    nd = E.mknode('ConvTranspose', attrs, 2, 1)
    nd.shape_infer(ins, [out])
    check_shapes(E, [out], [[n, m * g] + want], 'ConvTranspose')
    E.check(dtype_is(out, np.float32), 'ConvTranspose: element type')


def h_pool(E, op, r, mode, drop, ceil, hi, smax=4, kmax=6, dmax=3):
    dil = 'dilations' not in drop
    x, k, s, d, pb, pe = window(E, r, mode, hi, smax, dmax, kmax, dil)
    if 'strides' in drop:
        s = [1] * r
    if 'pads' in drop:
        for v in pb + pe:
            E.assume(v == 0)
        pb = pe = [0] * r
    n, c = E.int('n', 1, 64), E.int('c', 1, 2048)
    attrs = {'strides': s, 'dilations': d, 'pads': pb + pe, 'kernel_shape': k, 'ceil_mode': ceil}
    if mode != 'notset':
        attrs.pop('pads')
    for a in drop:
        attrs.pop(a, None)
    ap = E.choice('auto', AUTO[mode])
    if ap is not None:
        attrs['auto_pad'] = ap
    want = []
    for i in range(r):
        ke = (k[i] - 1) * d[i] + 1
        if mode == 'same':
            want.append((x[i] + s[i] - 1) // s[i])
        elif mode == 'valid':
            want.append((x[i] - ke) // s[i] + 1)
        else:
            span = x[i] + pb[i] + pe[i] - ke
            o = ((span + s[i] - 1) // s[i] if ceil else span // s[i]) + 1
            if ceil:                                   # windows starting beyond the data are outside the claim
                E.assume((o - 1) * s[i] < x[i] + pb[i])
            want.append(o)
    outs = [E.t('o0', [])]
    if op == 'MaxPool' and E.choice('Indices', [False, True]):
        outs.append(E.t('o1', []))
    nd = E.mknode(op, attrs, 1, len(outs))
    nd.shape_infer([E.t('x', [n, c] + x, np.float16)], outs)
    check_shapes(E, outs, [[n, c] + want] * 2, op)
    E.check(dtype_is(outs[0], np.float16) and all(dtype_is(o, np.int64) for o in outs[1:]), f'{op}: element type')


def h_gap(E, r):
    n, c = E.int('n', 0, 64), E.int('c', 1, 4096)
    x = E.ints('x', r, 1, 4096)
    out = E.t('o0', [])
    E.mknode('GlobalAveragePool').shape_infer([E.t('x', [n, c] + x, np.float32)], [out])
    check_shapes(E, [out], [[n, c] + [1] * r], 'GlobalAveragePool')


def h_d2s(E):
    n, c, h, w = E.int('n', 1, 16), E.int('c', 1, 64), E.int('h', 1, 512), E.int('w', 1, 512)
    b = E.int('b', 1, 5)
    mode = E.choice('mode', [b'DCR', b'CRD'])
    out = E.t('o0', [])
    E.mknode('DepthToSpace', {'blocksize': b, 'mode': mode}).shape_infer([E.t('x', [n, c * (b * b), h, w], np.float32)], [out])
    check_shapes(E, [out], [[n, c, h * b, w * b]], 'DepthToSpace')


SCALES = [0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 4.0]


def h_resize(E, op, r, how):
    x = dims(E, 'x', r, 1, 4096)
    X = E.t('x', x, np.float16)
    out = E.t('o0', [])
    if how == 'sizes':
        want = dims(E, 'o', r, 1, 8192)
        ins = [X, E.t('', []), E.t('', []), E.t('sz', value=E.array(want, np.int64), dtype=None)]
    else:
        sc = [E.choice(f'sc{i}', SCALES) if i >= r - 2 else 1.0 for i in range(r)]
        arr = E.t('s', value=E.array(sc, np.float32), dtype=None)
        ins = [X, arr] if how == 'scales2' else [X, E.t('roi', value=E.array([], np.float32), dtype=None), arr]
        want = [(d * int(s * 4)) // 4 for d, s in zip(x, sc)]
    E.mknode(op, {'mode': b'nearest'}, len(ins), 1).shape_infer(ins, [out])
    check_shapes(E, [out], [want], op)
    E.check(dtype_is(out, np.float16), f'{op}: element type')


def h_resize_axes(E, r, axes, how, policy=None):
    """Resize of the listed axes only (opset 18), with the aspect ratio policies"""
    X = dims(E, 'x', r, 1, 4096 if policy is None else 12)
    n = len(axes)
    attrs = {'mode': b'linear', 'axes': list(axes)}
    want = list(X)
    pos = [a % r for a in axes]
    if how == 'sizes':
        o = E.ints('o', n, 1, 8192 if policy is None else 24)
        ins = [E.t('x', X, np.float16), E.t('', []), E.t('', []), E.t('sz', value=E.array(o, np.int64), dtype=None)]
        if policy is None:
            for a, v in zip(pos, o):
                want[a] = v
        else:
            attrs['keep_aspect_ratio_policy'] = policy
            E.assume(E.all(*[X[a] == E.choice(f'd{i}', [1, 2, 4, 8]) for i, a in enumerate(pos)]))
            sc = [E.frac(v, X[a]) for a, v in zip(pos, o)]
            if policy != b'stretch':
                m = sc[0]
                for v in sc[1:]:
                    m = E.ite((v < m) if policy == b'not_larger' else (v > m), v, m)
                sc = [m] * n
            for a, v in zip(pos, sc):
                want[a] = E.floor(v * X[a] + 0.5)
    else:
        sc = [E.choice(f'sc{i}', SCALES) for i in range(n)]
        ins = [E.t('x', X, np.float16), E.t('', []), E.t('s', value=E.array(sc, np.float32), dtype=None)]
        for a, v in zip(pos, sc):
            want[a] = (X[a] * int(v * 4)) // 4
    out = E.t('o0', [])
    E.mknode('Resize', attrs, len(ins), 1).shape_infer(ins, [out])
    check_shapes(E, [out], [want], 'Resize')
    E.check(dtype_is(out, np.float16), 'Resize: element type')


def h_grid(E, r):
    n, c = E.int('n', 1, 64), E.int('c', 1, 512)
    x, o = E.ints('x', r, 1, 2048), E.ints('o', r, 1, 2048)
    out = E.t('o0', [])
    E.mknode('GridSample', {'mode': b'bilinear'}, 2, 1).shape_infer(
        [E.t('x', [n, c] + x, np.float16), E.t('g', [n] + o + [r], np.float32)], [out])
    check_shapes(E, [out], [[n, c] + o], 'GridSample')
    E.check(dtype_is(out, np.float16), 'GridSample: element type')


def obligations(tier):
    th = tier == 'thorough'
    hi = 100000
    obs = []
    for op in ('Conv', 'ConvInteger', 'QLinearConv'):
        for r in (1, 2, 3):
            for mode in ('notset', 'same', 'valid'):
                drops = [(), ('strides',), ('dilations',), ('pads',), ('strides', 'dilations', 'pads')] if (th or (op == 'Conv' and r < 3)) \
                    else [(), ('strides', 'dilations', 'pads')]
                for drop in drops:
                    if mode != 'notset' and drop == ('pads',):
                        continue
                    obs.append(Ob(f'{op}{r}d-{mode}-{"+".join(drop) or "full"}', h_conv,
                                  dict(op=op, r=r, mode=mode, drop=drop, hi=hi, smax=4 if r < 3 or th else 3, dmax=3 if r < 3 or th else 2,
                                       kmax=7 if r < 3 or th else 4), weight=r * 3 - len(drop)))
    for r in (1, 2, 3):
        for mode in ('notset', 'same', 'valid'):
            for drop in [(), ('strides', 'dilations', 'output_padding', 'pads')] + ([('output_padding',)] if th or r == 2 else []):
                obs.append(Ob(f'ConvT{r}d-{mode}-{"+".join(drop) or "full"}', h_convt, dict(r=r, mode=mode, drop=drop, hi=hi), weight=r * 3))
        obs.append(Ob(f'ConvT{r}d-output_shape', h_convt, dict(r=r, mode='notset', drop=(), hi=1000, outshape=True), weight=r))
    for op in ('MaxPool', 'AveragePool'):
        for r in (1, 2, 3):
            for mode in ('notset', 'same', 'valid'):
                for ceil in ((0, 1) if mode == 'notset' else (0,)):
                    for drop in [(), ('strides', 'dilations', 'pads')] + ([('dilations',)] if th or r == 2 else []):
                        if op == 'AveragePool' and not th and drop == ():
                            continue
                        obs.append(Ob(f'{op}{r}d-{mode}{"-ceil" if ceil else ""}-{"+".join(drop) or "full"}', h_pool,
                                      dict(op=op, r=r, mode=mode, drop=drop, ceil=ceil, hi=hi, smax=4 if r < 3 else 3, kmax=6 if r < 3 else 4,
                                           dmax=3 if r < 3 else 2), weight=r * 3 - len(drop)))
    for r in (0, 1, 2, 3):
        obs.append(Ob(f'GlobalAveragePool{r}', h_gap, dict(r=r)))
    obs.append(Ob('DepthToSpace', h_d2s))
    for r in (3, 4, 5) if th else (4,):
        for op, how in (('Resize', 'scales3'), ('Resize', 'sizes'), ('Upsample', 'scales2')):
            obs.append(Ob(f'{op}-{how}-{r}', h_resize, dict(op=op, r=r, how=how), weight=3))
    for r, axes in ((4, (2, 3)), (4, (3, 2)), (4, (-1, -2)), (4, (2,)), (3, (2,)), (4, (0, 1, 2, 3)), (5, (4, 2, 3))):
        for how in ('sizes', 'scales'):
            obs.append(Ob(f'Resize-axes{axes}-{how}', h_resize_axes, dict(r=r, axes=axes, how=how), weight=2))
        if len(axes) < 4:
            for pol in (b'stretch', b'not_larger', b'not_smaller'):
                obs.append(Ob(f'Resize-axes{axes}-{pol.decode()}', h_resize_axes, dict(r=r, axes=axes, how='sizes', policy=pol), weight=2, poly=True))
    for r in (2, 3):
        obs.append(Ob(f'GridSample{r}', h_grid, dict(r=r)))
    return obs


BOUNDS = {'all': 'spatial extents 1..100000, 1-3 spatial axes, kernels 1..7 (3-D quick: 1..4), strides 1..4 (3-D quick: 1..3), dilations 1..3 '
                 '(3-D quick 1..2), begin/end pads 0..5 independently, every auto_pad mode, attributes present or left to their defaults; '
                 'ConvTranspose kernels 1..4, strides 1..3, output padding 0..2; block size 1..5; scales multiples of 1/4; Resize of every list of one to three axes in either form, each aspect ratio policy'}
OUTSIDE = ('windows that do not fit in the padded input; ceil-mode windows that start beyond the data; scales that are not exact in binary; '
           'extents above 100000')
ASSUMPTIONS = ['true division of integers below 2^51 followed by floor/ceil/int is exact (IEEE double), so it is encoded as exact rational '
               'arithmetic']
