"""C01 - element-wise operators report the ONNX multidirectional broadcast of their inputs, or refuse."""
import numpy as np
from symex.runner import Ob
from .lib import *

ARITH = ['Add', 'Sub', 'Mul', 'Div', 'Mod', 'Pow', 'Max', 'Min', 'Sum']
BOOLS = ['Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor']
UNARY = ['Neg', 'Abs', 'Ceil', 'Floor', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Sigmoid', 'Tanh', 'Atan', 'Sign', 'Relu', 'Elu',
         'LeakyRelu', 'HardSigmoid', 'HardSwish', 'Softmax', 'LogSoftmax', 'Softplus', 'Erf', 'Identity', 'Reciprocal',
         'Round', 'Silu', 'Gelu', 'Relu6', 'Dropout']


def h_broadcast(E, op, ranks, dtype, lo):
    shapes = [dims(E, 'abc'[i], r, lo, 30 if op in ('Greater', 'GreaterOrEqual', 'Equal') else MAXD) for i, r in enumerate(ranks)]
    ins = [E.t(f'i{i}', s, dtype) for i, s in enumerate(shapes)]
    out = E.t('o0', [])
    n = E.mknode(op, {}, len(ins), 1)
    r = E.call(n.shape_infer, ins, [out])
    ok, want = broadcast_spec(E, shapes)
    E.observe('ok', r.ok)
    if not r.ok:
        E.check(E.no(ok), f'{op}: refuses shapes that broadcast ({type(r.exc).__name__})')
        return
    E.check(ok, f'{op}: accepts shapes that do not broadcast')
    check_shapes(E, [out], [want], op)
    E.check(dtype_is(out, np.bool_ if op in BOOLS else dtype), f'{op}: element type')
    for t, s in zip(ins, shapes):
        E.check(E.same(t.get_shape(), s), f'{op}: an input tensor changed shape')


def h_where(E, ranks, lo):
    shapes = [dims(E, 'cxy'[i], r, lo, MAXD) for i, r in enumerate(ranks)]
    ins = [E.t('c', shapes[0], np.bool_), E.t('x', shapes[1], np.float16), E.t('y', shapes[2], np.float16)]
    out = E.t('o0', [])
    n = E.mknode('Where', {}, 3, 1)
    r = E.call(n.shape_infer, ins, [out])
    ok, want = broadcast_spec(E, shapes)
    E.observe('ok', r.ok)
    if not r.ok:
        E.check(E.no(ok), 'Where: refuses shapes that broadcast')
        return
    E.check(ok, 'Where: accepts shapes that do not broadcast')
    check_shapes(E, [out], [want], 'Where')
    E.check(dtype_is(out, np.float16), 'Where: element type')


def h_unary(E, op, rank):
    s = dims(E, "d", rank, 0, MAXD)
    attrs = {'axis': rank - 1} if op in ('Softmax', 'LogSoftmax') else {}
    x = E.t('i0', s, np.float16)
    out = E.t('o0', [])
    n = E.mknode(op, attrs, 1, 1)
    r = E.call(n.shape_infer, [x], [out])
    E.check(r.ok, f'{op}: raises {type(r.exc).__name__ if r.exc else ""}')
    if r.ok:
        check_shapes(E, [out], [s], op)
        E.check(dtype_is(out, np.float16), f'{op}: element type')


def h_prelu(E, xr, sr):
    """PRelu / Clip-like operators whose extra inputs broadcast unidirectionally into the first one"""
    x = dims(E, "x", xr, 0, 1000)
    sl = []
    for i in range(sr):
        d = x[xr - sr + i]
        one = E.bool(f'one{i}')
        sl.append(E.ite(one, 1, d))
    out = E.t('o0', [])
    n = E.mknode('PRelu', {}, 2, 1)
    n.shape_infer([E.t('i0', x, np.float32), E.t('i1', sl, np.float32)], [out])
    check_shapes(E, [out], [x], 'PRelu')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for op in ARITH + BOOLS:
        dt = np.bool_ if op in ('And', 'Or', 'Xor') else np.int32 if op in ('Add', 'Mul', 'Equal') else np.float32
        for rk in [(0, 0), (0, 2), (1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (3, 3)] + ([(4, 2), (1, 4), (4, 3), (4, 4)] if th else [(4, 1)]):
            if not th and rk in [(3, 3)] and op not in ('Add', 'Sum', 'Pow', 'Less', 'Equal'):
                continue
            obs.append(Ob(f'{op}{rk}', h_broadcast, dict(op=op, ranks=rk, dtype=dt, lo=0), weight=sum(rk)))
    for op in ('Max', 'Min', 'Sum'):
        for rk in [(1,), (3,), (2, 1, 2)] + ([(2, 2, 2), (1, 3, 2), (1, 1, 1, 1)] if th else [(1, 1, 2)]):
            obs.append(Ob(f'{op}{rk}', h_broadcast, dict(op=op, ranks=rk, dtype=np.float32, lo=0), weight=sum(rk) + 2))
    for rk in [(0, 0, 0), (1, 1, 1), (2, 1, 0), (1, 2, 2), (2, 2, 1)] + ([(2, 2, 2), (3, 1, 2), (1, 3, 3), (4, 1, 1)] if th else [(3, 1, 1)]):
        obs.append(Ob(f'Where{rk}', h_where, dict(ranks=rk, lo=0), weight=sum(rk) + 3))
    for op in UNARY:
        for r in (0, 1, 4) if not th else (0, 1, 2, 3, 4, 5):
            if op in ('Softmax', 'LogSoftmax') and r == 0:
                continue
            obs.append(Ob(f'{op}[{r}]', h_unary, dict(op=op, rank=r), weight=0.5))
    for xr, sr in [(4, 3), (2, 1), (3, 3)]:
        obs.append(Ob(f'PRelu({xr},{sr})', h_prelu, dict(xr=xr, sr=sr)))
    return obs


BOUNDS = {'quick': 'every dimension any integer 0..100000, ranks 0-4 in the listed rank '
                   'pairs, 1-3 inputs', 'thorough': 'as quick with all rank pairs up to (4,4) and triples up to rank 4'}
OUTSIDE = 'ranks above 5; more than four inputs; text (symbolic) dimensions'
ASSUMPTIONS = ['shadow numpy broadcasting of shape-only arrays follows numpy (validated by replaying every path on the real package)']
