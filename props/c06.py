"""C06 - constant folding of element-wise operators computes the ONNX result."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .c03 import I64

F32 = np.float32
R = 1000


def tdiv(E, a, b):
    """integer division truncating toward zero"""
    q = E.floor(E.frac(abs_(E, a), abs_(E, b)))
    return E.ite(E.any(E.all(a < 0, b > 0), E.all(a > 0, b < 0)), -q, q)


def abs_(E, a):
    return E.ite(a < 0, -a, a)


def fmod(E, a, b):
    return a - b * tdiv(E, a, b)


def imod(E, a, b):
    m = fmod(E, a, b)
    return E.ite(E.all(E.no(m == 0), E.any(E.all(m < 0, b > 0), E.all(m > 0, b < 0))), m + b, m)


def band(E, a, b):
    return E.all(a, b)


def bor(E, a, b):
    return E.any(a, b)


def bxor(E, a, b):
    return E.any(E.all(a, E.no(b)), E.all(E.no(a), b))


def mk(E, name, shape, dt, lo=-R, hi=R):
    dt = np.dtype(dt)
    if dt == np.bool_:
        return E.bool_array(name, shape)
    if dt.kind in 'iu':
        return E.int_array(name, shape, max(lo, 0) if dt.kind == 'u' else lo, hi, dt)
    return E.real_array(name, shape, lo, hi, dt)


def bidx(shape, oshape, k):
    """flat index into an array of `shape` of the element feeding flat output index k"""
    sub = np.unravel_index(k, oshape) if len(oshape) else ()
    sub = sub[len(oshape) - len(shape):]
    sub = tuple(0 if shape[i] == 1 else sub[i] for i in range(len(shape)))
    return int(np.ravel_multi_index(sub, shape)) if len(shape) else 0


def check_arr(E, t, want, shape, dt, label, exact, obs=True):
    a = t.get_numpy()
    E.check(E.same(E.ishape(a), list(shape)), f'{label}: shape of the folded tensor')
    E.check(E.same(t.get_shape(), list(shape)), f'{label}: recorded shape')
    if dt is not None:
        E.check(dtype_is(t, dt) and np.dtype(a.dtype) == np.dtype(dt), f'{label}: element type')
    got = E.elems(a)
    if obs:
        E.observe('value', got)
    if len(got) != len(want):
        E.fail(f'{label}: number of elements')
        return
    for g, w in zip(got, want):
        E.check(E.eq(g, w) if exact else E.close(g, w), f'{label}: value')


def h_ew(E, op, shapes, dts, spec, attrs, odt, rng=None, nz=False, obs=True):
    rng = rng or [(-R, R)] * len(shapes)
    xs = [mk(E, 'abc'[i], s, d, *rng[i]) for i, (s, d) in enumerate(zip(shapes, dts))]
    if op == 'Mod':        # a divisor is one of a fixed set on each path (the dividends stay symbolic)
        n = int(np.prod(shapes[1]))
        dv = [E.choice(f'd{i}', [-12, -7, -5, -3, -2, -1, 1, 2, 3, 4, 7, 12] if n == 1 else [-5, -1, 3, 4]) for i in range(n)]
        xs[1] = E.array(np.array(dv).reshape(shapes[1]), dts[1])
    el = [E.elems(x) for x in xs]
    if nz:
        for v in el[1]:
            E.assume(E.no(v == 0))
    ins = [E.t(f'i{i}', value=x) for i, x in enumerate(xs)]
    out = E.t('o0', [])
    E.mknode(op, attrs, len(ins), 1).value_infer(ins, [out])
    oshape = np.broadcast_shapes(*shapes)
    n = int(np.prod(oshape))
    want = [spec(E, *[e[bidx(s, oshape, k)] for e, s in zip(el, shapes)]) for k in range(n)]
    check_arr(E, out, want, oshape, odt, op, np.dtype(odt).kind != 'f', obs)
    for t, e in zip(ins, el):
        if t.numpy is not None:
            E.check(E.same(E.elems(t.get_numpy()), e), f'{op}: an input tensor was modified')


def h_old_clip(E, lo, hi, how):
    """optional clip bounds: absent, empty-named, as tensors or as attributes"""
    x = mk(E, 'x', (2,), F32)
    a = mk(E, 'l', (), F32, -R, 0)
    b = mk(E, 'h', (), F32, 0, R)
    ins, attrs = [E.t('i0', value=x)], {}
    if how == 'attr':
        if lo:
            attrs['min'] = E.elems(a)[0]
        if hi:
            attrs['max'] = E.elems(b)[0]
    else:
        if lo:
            ins.append(E.t('lo', value=a))
        elif hi:
            ins.append(E.tensor.Tensor(''))
        if hi:
            ins.append(E.t('hi', value=b))
    out = E.t('o0', [])
    E.mknode('Clip', attrs, len(ins), 1).value_infer(ins, [out])
    want = []
    for v in E.elems(x):
        w = v
        if lo:
            w = E.max(w, E.elems(a)[0])
        if hi:
            w = E.min(w, E.elems(b)[0])
        want.append(w)
    check_arr(E, out, want, (2,), F32, 'Clip', False)


def roundhe(E, x):
    f = E.floor(x)
    d = x - f
    odd = E.no(f % 2 == 0) if not isinstance(f, int) else f % 2 == 1
    return E.ite(d * 2 < 1, f, E.ite(d * 2 > 1, f + 1, E.ite(odd, f + 1, f)))


SML = dict(nz=True, rng=[(-100, 100), (-12, 12)])
BIN = {  # op: (spec, dtypes of inputs, output dtype, options)
    'Add': [(lambda E, a, b: a + b, I64, I64, {}), (lambda E, a, b: a + b, F32, F32, {})],
    'Sub': [(lambda E, a, b: a - b, I64, I64, {}), (lambda E, a, b: a - b, F32, F32, {})],
    'Mul': [(lambda E, a, b: a * b, I64, I64, {}), (lambda E, a, b: a * b, F32, F32, {})],
    'Div': [(tdiv, I64, I64, SML), (tdiv, np.int32, np.int32, SML), (tdiv, np.uint8, np.uint8, dict(nz=True, rng=[(0, 200)] * 2)),
            (lambda E, a, b: a / b, F32, F32, dict(nz=True, rng=[(-R, R), (1, R)]))],
    'Mod': [(imod, I64, I64, SML), (imod, np.int32, np.int32, SML), (fmod, I64, I64, dict(SML, attrs={'fmod': 1}))],
    'Max': [(lambda E, a, b: E.max(a, b), I64, I64, {}), (lambda E, a, b: E.max(a, b), F32, F32, {})],
    'Min': [(lambda E, a, b: E.min(a, b), I64, I64, {}), (lambda E, a, b: E.min(a, b), F32, F32, {})],
    'Sum': [(lambda E, a, b: a + b, F32, F32, {})],
    'Less': [(lambda E, a, b: a < b, I64, np.bool_, {}), (lambda E, a, b: a < b, F32, np.bool_, {})],
    'LessOrEqual': [(lambda E, a, b: a <= b, I64, np.bool_, {})],
    'Greater': [(lambda E, a, b: a > b, I64, np.bool_, {}), (lambda E, a, b: a > b, F32, np.bool_, {})],
    'GreaterOrEqual': [(lambda E, a, b: a >= b, I64, np.bool_, {})],
    'Equal': [(lambda E, a, b: a == b, I64, np.bool_, {}), (lambda E, a, b: E.no(bxor(E, a, b)), np.bool_, np.bool_, {})],
    'And': [(band, np.bool_, np.bool_, {})],
    'Or': [(bor, np.bool_, np.bool_, {})],
    'Xor': [(bxor, np.bool_, np.bool_, {})],
}
U = lambda f: (lambda E, x: getattr(E.np, f)(x))
UN = {
    'Neg': [(lambda E, a: -a, I64, {}), (lambda E, a: -a, F32, {})],
    'Abs': [(abs_, I64, {}), (abs_, F32, {})],
    'Ceil': [(lambda E, a: E.ceil(a), F32, {})],
    'Floor': [(lambda E, a: E.floor(a), F32, {})],
    'Round': [(roundhe, F32, {})],
    'Sign': [(lambda E, a: E.ite(a > 0, 1, E.ite(a < 0, -1, 0)), I64, {}), (lambda E, a: E.ite(a > 0, 1, E.ite(a < 0, -1, 0)), F32, {})],
    'Relu': [(lambda E, a: E.max(a, 0), F32, {}), (lambda E, a: E.max(a, 0), I64, {})],
    'Relu6': [(lambda E, a: E.min(E.max(a, 0), 6), F32, {})],
    'LeakyRelu': [(lambda E, a: E.ite(a >= 0, a, a * 0.25), F32, dict(attrs={'alpha': 0.25}))],
    'HardSigmoid': [(lambda E, a: E.max(0, E.min(1, a * 0.25 + 0.5)), F32, dict(attrs={'alpha': 0.25, 'beta': 0.5}))],
    'HardSwish': [(lambda E, a: a * E.max(0, E.min(1, a * 0.25 + 0.5)), F32, dict(attrs={'alpha': 0.25, 'beta': 0.5}))],
    'Identity': [(lambda E, a: a, F32, {}), (lambda E, a: a, I64, {})],
    'Dropout': [(lambda E, a: a, F32, {})],
    'Not': [(lambda E, a: E.no(a), np.bool_, {})],
    'Reciprocal': [(lambda E, a: 1 / a, F32, dict(rng=[(1, R)]))],
    'Exp': [(U('exp'), F32, dict(rng=[(-5, 5)], obs=False))],
    'Log': [(U('log'), F32, dict(rng=[(1, R)], obs=False))],
    'Sqrt': [(U('sqrt'), F32, dict(rng=[(1, R)], obs=False))],
    'Sin': [(U('sin'), F32, dict(rng=[(-5, 5)], obs=False))],
    'Cos': [(U('cos'), F32, dict(rng=[(-5, 5)], obs=False))],
    'Tanh': [(U('tanh'), F32, dict(rng=[(-5, 5)], obs=False))],
    'Atan': [(U('arctan'), F32, dict(rng=[(-5, 5)], obs=False))],
    'Sigmoid': [(lambda E, a: 1 / (1 + E.np.exp(-a)), F32, dict(rng=[(-5, 5)], obs=False))],
    'Elu': [(lambda E, a: E.ite(a >= 0, a, E.np.exp(a) - 1), F32, dict(rng=[(-5, 5)], obs=False)),
            (lambda E, a: E.ite(a >= 0, a, 2 * (E.np.exp(a) - 1)), F32, dict(rng=[(-5, 5)], obs=False, attrs={'alpha': 2.0}))],
    'Softplus': [(lambda E, a: E.np.log1p(E.np.exp(a)), F32, dict(rng=[(-5, 5)], obs=False))],
}


def h_cast(E, src, to, dst):
    x = mk(E, 'x', (2,), src, *((0, 100) if np.dtype(dst).kind == 'u' else (-100, 100)))
    out = E.t('o0', [])
    E.mknode('Cast', {'to': to}, 1, 1).value_infer([E.t('i0', value=x)], [out])
    k, d = np.dtype(src).kind, np.dtype(dst).kind
    want = []
    for v in E.elems(x):
        if d == 'b':
            v = v if k == 'b' else E.no(v == 0)
        elif k == 'b':
            v = E.ite(v, 1, 0)
        elif k == 'f' and d in 'iu':
            v = E.ite(v < 0, -E.floor(-v), E.floor(v))
        want.append(v)
    check_arr(E, out, want, (2,), dst, 'Cast', d != 'f')


def h_pow(E, n, dt, edt):
    x = mk(E, 'x', (2,), dt, -50, 50)
    out = E.t('o0', [])
    E.mknode('Pow', {}, 2, 1).value_infer([E.t('i0', value=x), E.t('i1', value=E.array([n], edt))], [out])
    want = []
    for v in E.elems(x):
        w = 1
        for _ in range(n):
            w = w * v
        want.append(w)
    check_arr(E, out, want, (2,), dt, 'Pow', np.dtype(dt).kind != 'f')


def h_softmax(E, axis):
    x = mk(E, 'x', (2, 2), F32, -5, 5)
    out = E.t('o0', [])
    E.mknode('Softmax', {} if axis is None else {'axis': axis}, 1, 1).value_infer([E.t('i0', value=x)], [out])
    v = E.elems(x)
    e = [E.np.exp(a) for a in v]
    a = 1 if axis is None else axis % 2
    grp = [(0, 1), (0, 1), (2, 3), (2, 3)] if a == 1 else [(0, 2), (1, 3), (0, 2), (1, 3)]
    check_arr(E, out, [e[i] / (e[g[0]] + e[g[1]]) for i, g in enumerate(grp)], (2, 2), F32, 'Softmax', False, obs=False)


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    SH = [((2,), (2,)), ((2, 1), (2,)), ((), (2,)), ((2,), (1,))] + [((3,), (2, 3)), ((2, 1, 2), (2, 1)), ((1, 2, 1, 2), (2, 1)), ((), ()), ((0,), (1,)), ((1, 1, 2), (1,))]
    for op, vs in BIN.items():
        for vi, (spec, dt, odt, o) in enumerate(vs):
            for si, sh in enumerate(SH):
                if op in ('Div', 'Mod', 'Mul') and not th and int(np.prod(np.broadcast_shapes(*sh))) > 2:
                    sh = [((2, 1), (1,)), ((1,), (1, 1, 2))][si % 2]
                    if si > 1:
                        continue
                obs.append(Ob(f'{op}/{vi}/{si}', h_ew, dict(op=op, shapes=sh, dts=(dt, dt), spec=spec, attrs=o.get('attrs', {}), odt=odt,
                                                            rng=o.get('rng'), nz=o.get('nz', False)), poly=op in ('Div', 'Mod', 'Mul', 'Pow'),
                              weight=8 if op in ('Div', 'Mod') else 2))
    for op, vs in BIN.items():
        for vi, (spec, dt, odt, o) in enumerate(vs):
            for t in {F32: (np.float64, np.float16), I64: (np.int32,)}.get(dt, ()):
                if any(d == t for _, d, _t, _o in vs):
                    continue
                obs.append(Ob(f'{op}/{vi}/{np.dtype(t)}', h_ew, dict(op=op, shapes=((2,), (1,)), dts=(t, t), spec=spec, attrs=o.get('attrs', {}),
                                                                     odt=t if odt == dt else odt, rng=o.get('rng'), nz=o.get('nz', False)),
                              poly=op in ('Div', 'Mod', 'Mul', 'Pow'), weight=8 if op in ('Div', 'Mod') else 2))
    for op in ('Max', 'Min', 'Sum'):
        f = {'Max': lambda E, a, b, c: E.max(E.max(a, b), c), 'Min': lambda E, a, b, c: E.min(E.min(a, b), c),
             'Sum': lambda E, a, b, c: a + b + c}[op]
        obs.append(Ob(f'{op}x3', h_ew, dict(op=op, shapes=((2,), (1,), (2, 1)), dts=(F32,) * 3, spec=f, attrs={}, odt=F32)))
        obs.append(Ob(f'{op}x1', h_ew, dict(op=op, shapes=((2,),), dts=(F32,), spec=lambda E, a: a, attrs={}, odt=F32)))
    wh = lambda E, c, a, b: E.ite(c, a, b)
    for i, sh in enumerate([((2,), (2,), (2,)), ((), (2,), (2,)), ((2, 1), (2,), ()), ((2,), (2, 1), (1, 2))]):
        obs.append(Ob(f'Where{i}', h_ew, dict(op='Where', shapes=sh, dts=(np.bool_, I64, I64), spec=wh, attrs={}, odt=I64)))
        obs.append(Ob(f'WhereF{i}', h_ew, dict(op='Where', shapes=sh, dts=(np.bool_, F32, F32), spec=wh, attrs={}, odt=F32)))
    for op, vs in UN.items():
        more = [(s_, t, o) for s_, dt, o in vs if dt in (F32, I64) for t in ((np.float64, np.float16) if dt == F32 else (np.int32,))
                if not any(d == t for _, d, _o in vs) and (t != np.float16 or o.get('obs', True))]
        for vi, (spec, dt, o) in enumerate(list(vs) + more):
            for sh in ((2,), (2, 2), (), (2, 1, 2), (1, 2, 1, 1), (0,), (1,)) if vi < len(vs) else ((2,), (1, 1, 2)):
                obs.append(Ob(f'{op}/{vi}{sh}', h_ew, dict(op=op, shapes=(sh,), dts=(dt,), spec=spec, attrs=o.get('attrs', {}), odt=dt, rng=o.get('rng'),
                                                           obs=o.get('obs', True))))
    for how in ('tensor', 'attr'):
        for lo in (0, 1):
            for hi in (0, 1):
                obs.append(Ob(f'Clip-{how}-{lo}{hi}', h_old_clip, dict(lo=lo, hi=hi, how=how)))
    from .c03 import CASTS
    for src in (I64, F32, np.bool_, np.int32):
        for to, dst in CASTS:
            obs.append(Ob(f'Cast-{np.dtype(src)}-{np.dtype(dst)}', h_cast, dict(src=src, to=to, dst=dst)))
    for n in (0, 1, 2, 3):
        obs.append(Ob(f'Pow{n}', h_pow, dict(n=n, dt=F32, edt=F32), poly=True))
        obs.append(Ob(f'Pow{n}i', h_pow, dict(n=n, dt=F32, edt=I64), poly=True))
        obs.append(Ob(f'Pow{n}ii', h_pow, dict(n=n, dt=I64, edt=I64), poly=True))
    for ax in (None, 0, 1, -1, -2):
        obs.append(Ob(f'Softmax[{ax}]', h_softmax, dict(axis=ax)))
    return obs


BOUNDS = {'all': 'arrays of 1-4 elements in 10 broadcast patterns of ranks 0-4 including empty ones; integers -1000..1000 (uint8 0..200), reals in [-1000,1000] '
                 '([-5,5] for exponentials); element types int64/int32/uint8/bool/float16/float32/float64; attribute defaults and explicit values'}
OUTSIDE = 'floating-point rounding, overflow, infinities and NaN; division by zero; fractional and negative exponents of Pow'
ASSUMPTIONS = ['floating-point element arithmetic is idealised as exact real arithmetic; transcendental functions are uninterpreted (with '
               'exp>0, sqrt>=0), so the claim is that the right function is applied to the right argument']
