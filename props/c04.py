"""C04 - reductions, selection and shape-preserving operators report the ONNX shape."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .c03 import run, finish, ten, pick_axes, I64

KEEP = {  # op -> (attributes, shapes of the extra inputs given x, element type of output)
    'BatchNormalization': ({}, lambda x: [[x[1]]] * 4),
    'InstanceNormalization': ({}, lambda x: [[x[1]]] * 2),
    'LayerNormalization': ({'axis': -1}, lambda x: [[x[-1]]] * 2),
    'LpNormalization': ({}, lambda x: []),
    'LRN': ({'size': 3}, lambda x: []),
    'Dropout': ({}, lambda x: []),
    'Hardmax': ({'axis': 1}, lambda x: []),
    'RandomUniformLike': ({}, lambda x: []),
    'RandomNormalLike': ({}, lambda x: []),
    'ImageScaler': ({}, lambda x: []),
}


def h_reduce(E, op, r, n, how, keep):
    small = op == 'ReduceL2'
    x = dims(E, 'x', r, 0, 12 if small else MAXD)
    dt = E.choice('type', [np.float16, np.int32] + ([np.int8] if r == 1 else []))
    ins, attrs = [E.t('x', x, dt)], {}
    if keep is not None:
        attrs['keepdims'] = keep
    if n is None:
        pos = list(range(r))
    else:
        raw, pos = pick_axes(E, 'a', n, r)
        if how == 'attr':
            attrs['axes'] = list(raw)
        else:
            ins.append(ten(E, 'ax', raw))
    outs = run(E, op, attrs, ins)
    k = keep is None or keep == 1
    want = [1 if i in pos else d for i, d in enumerate(x) if k or i not in pos]
    finish(E, op, outs, [want], dt)


def h_argmax(E, r, keep):
    x = dims(E, 'x', r, 0, 12)
    axis = E.choice('axis', [None] + list(range(-r, r)))
    a = 0 if axis is None else axis % r
    E.assume(x[a] >= 1)
    attrs = {} if axis is None else {'axis': axis}
    if keep is not None:
        attrs['keepdims'] = keep
    outs = run(E, 'ArgMax', attrs, [E.t('x', x, np.float16)])
    want = [1 if i == a else d for i, d in enumerate(x) if i != a or keep != 0]
    finish(E, 'ArgMax', outs, [want], I64)


def h_topk(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', [None] + list(range(-r, r)))
    a = r - 1 if axis is None else axis % r
    k = E.int('k', 0, MAXD)
    E.assume(k <= x[a])
    outs = run(E, 'TopK', {} if axis is None else {'axis': axis}, [E.t('x', x, np.float16), ten(E, 'k', [k])], 2)
    want = list(x)
    want[a] = k
    check_shapes(E, outs, [want, want], 'TopK')
    E.check(dtype_is(outs[0], np.float16) and dtype_is(outs[1], I64), 'TopK: element types')


def h_onehot(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', [None] + list(range(-r - 1, r + 1)))
    a = r if axis is None else axis % (r + 1)
    d = E.int('d', 0, MAXD)
    outs = run(E, 'OneHot', {} if axis is None else {'axis': axis},
               [E.t('x', x, I64), ten(E, 'd', [d]), ten(E, 'v', [0.0, 1.0], np.float16)])
    finish(E, 'OneHot', outs, [x[:a] + [d] + x[a:]], np.float16)


def h_keep(E, op, r):
    x = dims(E, 'x', r, 0, MAXD)
    attrs, extra = KEEP[op]
    ins = [E.t('x', x, np.float16)] + [E.t(f'w{i}', list(s), np.float32) for i, s in enumerate(extra(x))]
    outs = run(E, op, dict(attrs), ins)
    finish(E, op, outs, [x], np.float16)


def h_noop(E, op, r, noop, keep):
    """an empty list of axes: all of them, or none with noop_with_empty_axes"""
    x = dims(E, 'x', r, 0, 12 if op == 'ReduceL2' else MAXD)
    how = E.choice('how', ['none', 'empty', 'name'])
    attrs = {} if noop is None else {'noop_with_empty_axes': noop}
    if keep is not None:
        attrs['keepdims'] = keep
    ins = [E.t('x', x, np.float16)] + ([E.t('ax', value=E.array(np.zeros(0, I64), I64))] if how == 'empty' else [])
    outs = run(E, op, attrs, ins)
    want = list(x) if noop == 1 else ([1] * r if keep != 0 else [])
    finish(E, op, outs, [want], np.float16)


def h_layernorm(E, r, nout):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', [None] + list(range(-r, r)))
    a = r - 1 if axis is None else axis % r
    xt = E.choice('type', [np.float16, np.float32])
    attrs = {} if axis is None else {'axis': axis}
    if E.choice('stash', [False, True]):
        attrs['stash_type'] = 1
    outs = run(E, 'LayerNormalization', attrs, [E.t('x', x, xt), E.t('g', x[a:], xt)] + ([E.t('b', x[a:], xt)] if E.choice('bias', [True, False]) else []), nout)
    st = x[:a] + [1] * (r - a)
    check_shapes(E, outs, [x, st, st][:nout], 'LayerNormalization')
    E.check(dtype_is(outs[0], xt) and all(dtype_is(o, np.float32) for o in outs[1:]), 'LayerNormalization: element types')


def h_batchnorm(E, r, nout):
    x = dims(E, 'x', r, 0, MAXD)
    c = [x[1]]
    xt, mt = E.choice('type', [np.float16, np.float32]), E.choice('stats', [np.float32, np.float64])
    outs = run(E, 'BatchNormalization', {'training_mode': 1} if nout > 1 else {}, [E.t('x', x, xt), E.t('s', c, xt), E.t('b', c, xt), E.t('m', c, mt), E.t('v', c, mt)], nout)
    check_shapes(E, outs, [x, c, c][:nout], 'BatchNormalization')
    E.check(dtype_is(outs[0], xt) and all(dtype_is(o, mt) for o in outs[1:]), 'BatchNormalization: element types')


def h_dropout(E, r, nout):
    x = dims(E, 'x', r, 0, MAXD)
    n = E.choice('operands', [1, 2, 3])
    ins = [E.t('x', x, np.float16), E.t('ratio', value=E.array(np.array(0.5, np.float32), np.float32)), E.t('train', value=E.array(np.array(False), np.bool_))][:n]
    outs = run(E, 'Dropout', {}, ins, nout)
    check_shapes(E, outs, [x, x][:nout], 'Dropout')
    E.check(dtype_is(outs[0], np.float16) and all(dtype_is(o, np.bool_) for o in outs[1:]), 'Dropout: element types')


def h_quant(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', [None] + list(range(-r, r)))
    p = [1] if axis is None else [x[axis]]
    at = {} if axis is None else {'axis': axis}
    qt = E.choice('code', [np.uint8, np.int8])
    xt = E.choice('type', [np.float16, np.float32])
    zp = E.choice('zero point', [True, False])
    outs = run(E, 'QuantizeLinear', dict(at), [E.t('x', x, xt), E.t('s', p, xt)] + ([E.t('z', p, qt)] if zp else []))
    finish(E, 'QuantizeLinear', outs, [x], qt if zp else np.uint8)
    outs = run(E, 'DequantizeLinear', dict(at), [E.t('x', x, qt), E.t('s', p, xt)] + ([E.t('z', p, qt)] if zp else []))
    finish(E, 'DequantizeLinear', outs, [x], xt)
    code, st = E.choice('output_dtype', [(2, np.uint8), (3, np.int8), (4, np.uint16), (5, np.int16)])
    if not zp or st == qt:
        outs = run(E, 'QuantizeLinear', dict(at, output_dtype=code), [E.t('x', x, xt), E.t('s', p, xt)] + ([E.t('z', p, qt)] if zp else []))
        finish(E, 'QuantizeLinear', outs, [x], st)
    code, st = E.choice('precision', [(1, np.float32), (10, np.float16)])
    outs = run(E, 'DequantizeLinear', dict(at, output_dtype=code), [E.t('x', x, qt), E.t('s', p, xt)] + ([E.t('z', p, qt)] if zp else []))
    finish(E, 'DequantizeLinear', outs, [x], st)


def h_range(E, sgn):
    s = E.int('s', -20, 20)
    l = E.int('l', -20, 20)
    d = E.int('d', 1, 5)
    d = d if sgn > 0 else -d
    outs = run(E, 'Range', {}, [E.t(n, value=E.array(v, I64)) for n, v in (('s', s), ('l', l), ('d', d))])
    k = abs(d) if isinstance(d, int) else (d if sgn > 0 else -d)
    span = (l - s) if sgn > 0 else (s - l)
    want = E.ite(span > 0, (span + k - 1) // k, 0)
    finish(E, 'Range', outs, [[want]], I64)


def h_roialign(E):
    x = dims(E, 'x', 4, 0, MAXD)
    n, h, w = E.int('n', 0, MAXD), E.int('h', 1, 64), E.int('w', 1, 64)
    outs = run(E, 'RoiAlign', {'output_height': h, 'output_width': w},
               [E.t('x', x, np.float16), E.t('r', [n, 4], np.float16), E.t('b', [n], I64)])
    finish(E, 'RoiAlign', outs, [[n, x[1], h, w]], np.float16)


def h_cumsum(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', list(range(-r, r)))
    attrs = E.choice('attrs', [{}, {'exclusive': 1}, {'reverse': 1}])
    outs = run(E, 'CumSum', dict(attrs), [E.t('x', x, np.float16), E.t('a', value=E.array(axis, np.int32))])
    finish(E, 'CumSum', outs, [x], np.float16)


def h_rnn(E, op, ndir, nout):
    seq, b, inp, h = E.int('s', 0, 1000), E.int('b', 0, 1000), E.int('i', 1, 1000), E.int('h', 1, 1000)
    g = 4 if op == 'LSTM' else 3
    dirs = [b'bidirectional'] if ndir == 2 else [None, b'forward', b'reverse']
    d = E.choice('direction', dirs)
    layout = E.choice('layout', [None, 0, 1])
    attrs = {'hidden_size': h}
    if d is not None:
        attrs['direction'] = d
    if layout is not None:
        attrs['layout'] = layout
    first = layout == 1
    x = [b, seq, inp] if first else [seq, b, inp]
    st = [b, ndir, h] if first else [ndir, b, h]
    ins = [E.t('x', x, np.float16), E.t('w', [ndir, g * h, inp], np.float16), E.t('r', [ndir, g * h, h], np.float16)]
    n = E.choice('operands', [3, 4, 6])
    if n > 3:
        ins.append(E.t('bb', [ndir, 2 * g * h], np.float16))
    if n > 4:
        ins += [E.t('len', [b], np.int32), E.t('h0', st, np.float16)] + ([E.t('c0', st, np.float16)] if op == 'LSTM' else [])
    outs = run(E, op, attrs, ins, nout)
    finish(E, op, outs, [[b, seq, ndir, h] if first else [seq, ndir, b, h]] + [st] * (nout - 1), np.float16)


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for op in ('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2'):
        for r in (1, 2, 3, 4):
            for n in [None, 1, 2] + ([3] if th else []):
                if n is not None and n > r:
                    continue
                for how in ('attr', 'input'):
                    if n is None and how == 'input':
                        continue
                    for keep in (None, 0, 1) if th or r < 3 else (None, 0):
                        obs.append(Ob(f'{op}{r}-{n}-{how}-{keep}', h_reduce, dict(op=op, r=r, n=n, how=how, keep=keep), weight=r))
    for r in (1, 2, 3) + ((4,) if th else ()):
        for keep in (None, 0, 1):
            obs.append(Ob(f'ArgMax{r}-{keep}', h_argmax, dict(r=r, keep=keep), weight=r))
        obs.append(Ob(f'TopK{r}', h_topk, dict(r=r), weight=r))
        obs.append(Ob(f'OneHot{r}', h_onehot, dict(r=r), weight=r))
        obs.append(Ob(f'CumSum{r}', h_cumsum, dict(r=r)))
    for op in KEEP:
        for r in ((4,) if op == 'ImageScaler' else (2, 3, 4, 5)):
            obs.append(Ob(f'{op}{r}', h_keep, dict(op=op, r=r)))
    for op in ('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2'):
        for r in (1, 2, 4):
            for noop in (None, 0, 1):
                obs.append(Ob(f'{op}{r}-empty-{noop}', h_noop, dict(op=op, r=r, noop=noop, keep=(None, 0, 1)[r % 3])))
                obs.append(Ob(f'{op}{r}-empty-{noop}k', h_noop, dict(op=op, r=r, noop=noop, keep=0)))
    for r in (1, 2, 3, 4):
        for nout in (1, 2, 3):
            obs.append(Ob(f'LayerNormalization{r}-{nout}', h_layernorm, dict(r=r, nout=nout)))
            if r > 1:
                obs.append(Ob(f'BatchNormalization{r}-{nout}', h_batchnorm, dict(r=r, nout=nout)))
            if nout < 3:
                obs.append(Ob(f'Dropout{r}-{nout}', h_dropout, dict(r=r, nout=nout)))
    for r in (1, 2, 4):
        obs.append(Ob(f'QuantizeLinear{r}', h_quant, dict(r=r)))
    obs.append(Ob('Range+', h_range, dict(sgn=1), weight=4))
    obs.append(Ob('Range-', h_range, dict(sgn=-1), weight=4))
    obs.append(Ob('RoiAlign', h_roialign))
    for ndir in (1, 2):
        for op, nouts in (('LSTM', (1, 2, 3)), ('GRU', (1, 2))):
            for nout in nouts:
                obs.append(Ob(f'{op}{ndir}-{nout}', h_rnn, dict(op=op, ndir=ndir, nout=nout)))
    return obs


BOUNDS = {'all': 'ranks 1-4 (normalisation operators 2-5), extents 0..100000 (0..12 for operators that evaluate data: ReduceL2, ArgMax); one or two '
                 '(thorough three) axes in any order and sign, as attribute, tensor or omitted; keepdims 0/1/omitted; no axes, an empty axes tensor, noop_with_empty_axes; Range bounds -20..20, steps +-1..5; LSTM and GRU in both layouts, all directions, with and without bias, lengths and states; the second and third results of every operator'}
OUTSIDE = 'data-dependent counts (NonZero, NonMaxSuppression, Compress)'
ASSUMPTIONS = ['shadow numpy reductions of shape-only arrays follow numpy (every path is replayed on the real package)']
