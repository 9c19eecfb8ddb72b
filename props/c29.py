"""C29 - the kernels of the inference engine compute the ONNX operators they are registered for."""
import itertools
from fractions import Fraction
import numpy as np
from symex import ftorch as T
from symex.runner import Ob
from .lib import *
from .c28 import ten, same_vals, dot, bc

F = T.float32


def ints(v, dt=T.int64, shape=None):
    """integer operand; the engine hands constants over as floats"""
    return T.make([T.cast(x, dt) for x in v], shape if shape is not None else [len(v)], dt)


def vals(t):
    return t.flat(), [int(s) for s in t.shape]


def obj(v, s):
    a = np.empty(len(v), object)
    a[:] = v
    return a.reshape(s)


def flat(a):
    return list(np.asarray(a, object).reshape(-1))


# results through uninterpreted functions are not compared with the replay
UFS = {'Sigmoid', 'Tanh', 'Sqrt', 'Erf', 'Silu', 'Softmax', 'BatchNormalization', 'LayerNormalization', 'Layernrom'}


def run(E, op, ins, attrs, want, dt=F, note='', obs=None):
    """the kernel of op writes `want` [(values, shape)] into its outputs and leaves its inputs alone"""
    KN = E.m('inference.kernels')
    k = KN.KernelRegistry.get(op)
    if k is None or not KN.KernelRegistry.has(op):
        E.fail(f'{op} has no kernel')
    dts = dt if isinstance(dt, list) else [dt] * len(want)
    outs = [T.empty(*s, dtype=d) for (_, s), d in zip(want, dts)]
    old = [t.flat() if t is not None else None for t in ins]
    r = E.call(k.run, ins, outs, dict(attrs))
    if not r.ok:
        E.fail(f'{op}{note} raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    for i, (w, s) in enumerate(want):
        E.check([int(v) for v in outs[i].shape] == list(s), f'{op}{note}: shape of output {i}')
        same_vals(E, outs[i].flat(), w, f'{op}{note}: output {i}', op not in UFS if obs is None else obs)
    for t, o in zip(ins, old):
        if t is not None:
            E.check(E.all(*[E.close(a, b) for a, b in zip(t.flat(), o)]), f'{op}{note}: inputs left alone')


# ---- elementwise
BIN = {'Add': lambda E, x, y: x + y, 'Sub': lambda E, x, y: x - y, 'Mul': lambda E, x, y: x * y, 'Div': lambda E, x, y: x / y}
BSH = [([2, 3], [2, 3]), ([2, 3], [3]), ([2, 1], [1, 3]), ([2], []), ([1, 2, 2], [2, 1]), ([2, 1, 2, 1], [3, 1, 2]), ([1, 3, 1, 2], [2, 1, 2, 1]), ([4, 1, 1, 1], [2])]


def h_bin(E, op):
    sa, sb = E.choice('shapes', BSH)
    if E.choice('swap', [0, 1]):
        sa, sb = sb, sa
    a, b = ten(E, 'a', sa), ten(E, 'b', sb, *((1, 4) if op == 'Div' else (-4, 4)))
    w = bc(E, lambda x, y: BIN[op](E, x, y), *vals(a), *vals(b))
    run(E, op, [a, b], {}, [w])


CMP = {'Equal': lambda x, y: x == y, 'Greater': lambda x, y: x > y, 'Less': lambda x, y: x < y}


def h_cmp(E, op):
    sa, sb = E.choice('shapes', [([2], [2]), ([2, 1], [2]), ([2], []), ([2, 1, 2], [3, 1])])
    dt = E.choice('dt', [T.bool_, F])
    a, b = ten(E, 'a', sa, -3, 3, T.int64), ten(E, 'b', sb, -3, 3, T.int64)
    w, s = bc(E, lambda x, y: E.ite(CMP[op](x, y), 1, 0), *vals(a), *vals(b))
    KN = E.m('inference.kernels')
    o = T.empty(*s, dtype=dt)
    KN.KernelRegistry.get(op).run([a, b], [o], {})
    E.check(E.all(*[E.eq(E.ite(g, 1, 0) if dt is T.bool_ else g, x) for g, x in zip(o.flat(), w)]), f'{op}: values')


UN = {'Relu': lambda E, x: E.ite(x > 0, x, 0), 'Neg': lambda E, x: -x, 'Identity': lambda E, x: x, 'Sigmoid': lambda E, x: 1 / (1 + T.uf('exp', -x)),
      'Tanh': lambda E, x: T.uf('tanh', x), 'Sqrt': lambda E, x: T.uf('sqrt', x), 'Erf': lambda E, x: T.uf('erf', x),
      'Silu': lambda E, x: x / (1 + T.uf('exp', -x))}


def h_un(E, op):
    a = ten(E, 'a', E.choice('shape', [[2, 2], [3], []]), *((0, 4) if op == 'Sqrt' else (-4, 4)))
    v, s = vals(a)
    run(E, op, [a], {}, [([UN[op](E, x) for x in v], s)])


def h_leaky(E):
    a = ten(E, 'a', [3])
    al = E.choice('alpha', [None, 0.25, 2.0])
    v, s = vals(a)
    k = 0.01 if al is None else al
    run(E, 'LeakyRelu', [a], {} if al is None else {'alpha': al}, [([E.ite(x >= 0, x, x * k) for x in v], s)])


def h_clip(E, form):
    a = ten(E, 'a', [2, 2], -9, 9)
    lo, hi = E.choice('lo', [None, -2, 1]), E.choice('hi', [None, 3, 5])
    f = lambda x: E.ite(hi is not None and x > (hi or 0), hi, E.ite(lo is not None and x < (lo or 0), lo, x)) if not E.sym else clipped(E, x, lo, hi)
    v, s = vals(a)
    if form == 'attrs':
        run(E, 'Clip', [a], {k: float(x) for k, x in (('min', lo), ('max', hi)) if x is not None}, [([f(x) for x in v], s)])
    else:
        ins = [a] + [None if x is None else T.make([T.cast(x, F)], [], F) for x in (lo, hi)]
        while ins[-1] is None:
            ins.pop()
        run(E, 'Clip', ins, {}, [([f(x) for x in v], s)])


def clipped(E, x, lo, hi):
    if lo is not None:
        x = E.ite(x < lo, lo, x)
    if hi is not None:
        x = E.ite(x > hi, hi, x)
    return x


def h_pow(E):
    a, (e, es) = ten(E, 'a', [2, 2]), E.choice('e', [([0], []), ([1], [1]), ([2], []), ([2], [1]), ([3], []), ([1, 2], [2]), ([3, 0], [2, 1]), ([2, 1, 0, 2], [2, 2])])
    w, s = bc(E, lambda x, n: x ** n if n else 1, *vals(a), e, es)
    run(E, 'Pow', [a, T.make([T.cast(v, F) for v in e], es, F)], {}, [(w, s)])


def h_mod(E):
    a, b = ten(E, 'a', [3], -20, 20, T.int64), ten(E, 'b', E.choice('sb', [[3], [1]]), 1, 6, T.int64)
    fm = E.choice('fmod', [None, 0, 1])
    neg = E.choice('negb', [0, 1])
    if neg:
        b = T.make([-v for v in b.flat()], b.shape, T.int64)
    ab = lambda x: E.ite(x < 0, -x, x)

    def f(x, y):
        r = ab(x) % ab(y)
        t = E.ite(x < 0, -r, r)
        if fm:
            return t
        return E.ite(E.all(t != 0, E.any(E.all(t < 0, y > 0), E.all(t > 0, y < 0))), t + y, t)
    run(E, 'Mod', [a, b], {} if fm is None else {'fmod': fm}, [bc(E, f, *vals(a), *vals(b))], dt=T.int64)


def h_where(E):
    sc, sa, sb = E.choice('shapes', [([2], [2], [2]), ([2, 1], [2], [2, 2]), ([2], [], [2, 2]), ([1, 1, 2], [3, 1], []), ([], [2], [2, 1])])
    c = T.make([E.bool(f'c{i}') for i in range(int(np.prod(sc)))], sc, T.bool_)
    if E.choice('asfloat', [0, 1]):
        c = T.make([E.ite(v, 1, 0) for v in c.flat()], sc, T.int64)
    a, b = ten(E, 'a', sa), ten(E, 'b', sb)
    A, B, C = np.broadcast_arrays(obj(*vals(a)), obj(*vals(b)), obj(*vals(c)))
    t = lambda v: v != 0 if c.dtype is T.int64 else v
    run(E, 'Where', [c, a, b], {}, [([E.ite(t(k), x, y) for x, y, k in zip(A.reshape(-1), B.reshape(-1), C.reshape(-1))], list(A.shape))])


def h_cast(E):
    to, dt = E.choice('to', [(1, F), (7, T.int64), (6, T.int32), (11, T.float64), (9, T.bool_), (2, T.uint8), (3, T.int8), (5, T.int16), (10, T.float16), (None, F)])
    a = ten(E, 'a', [3], 0 if to == 2 else -5, 5)
    if dt.kind == 'b':
        a = ten(E, 'z', [3], -1, 1, T.int64)
    else:
        a = T.make(a.flat() + [T.cast(n, F) for n in ((100, 17) if to in (2, 3) else (3000, -300) if to == 5 else (1e5, -70000, 2 ** 30) if to in (6, 7) else (2.5, -1.5))], [5 if to not in (6, 7) else 6], F)
    v, s = vals(a)
    if dt.kind == 'f':
        w = v
    elif dt.kind in 'iu':
        w = [E.ite(x < 0, -E.floor(-x), E.floor(x)) for x in v]
    else:
        w = [E.ite(x != 0, 1, 0) for x in v]
    KN = E.m('inference.kernels')
    o = T.empty(*s, dtype=dt)
    KN.KernelRegistry.get('Cast').run([a], [o], {} if to is None else {'to': to})
    E.check(E.all(*[E.eq(E.ite(g, 1, 0), x) if dt.kind == 'b' else E.close(g, x) for g, x in zip(o.flat(), w)]), 'Cast: values')


# ---- matrices
def mmul(A, B):
    """stacked matrices with broadcasting"""
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A, B = np.broadcast_to(A, bs + A.shape[-2:]), np.broadcast_to(B, bs + B.shape[-2:])
    r = np.empty(bs + (A.shape[-2], B.shape[-1]), object)
    for ix in np.ndindex(*r.shape):
        r[ix] = dot(list(A[ix[:-2]][ix[-2]]), list(B[ix[:-2]][:, ix[-1]]))
    return r


def h_matmul(E):
    sa, sb = E.choice('shapes', [([2, 3], [3, 2]), ([2, 1, 2], [2, 2]), ([1, 2, 2], [2, 2, 1]), ([1, 2], [2, 2, 1]), ([2, 1, 1, 2], [3, 2, 2]), ([1, 2, 2, 1], [2, 1, 1, 3])])
    a, b = ten(E, 'a', sa), ten(E, 'b', sb)
    r = mmul(obj(*vals(a)), obj(*vals(b)))
    run(E, 'MatMul', [a, b], {}, [(flat(r), list(r.shape))])
    # a MatMul fused with the bias behind it
    c = ten(E, 'c', [r.shape[-1]])
    run(E, 'MatMul', [a, b, c], {}, [(flat(r + obj(*vals(c))), list(r.shape))], note=' with bias')


def h_gemm(E, how):
    ta, tb = E.choice('ta', [0, 1]), E.choice('tb', [0, 1])
    al, be = E.choice('alpha', [None, 2.0]), E.choice('beta', [None, 0.5])
    a, b = ten(E, 'a', [2, 3] if not ta else [3, 2]), ten(E, 'b', [3, 2] if not tb else [2, 3])
    cs = E.choice('c', [None, [2], [2, 1], [2, 2]])
    at = {k: v for k, v in (('transA', ta), ('transB', tb), ('alpha', al), ('beta', be)) if v}
    A, B = obj(*vals(a)), obj(*vals(b))
    r = mmul(A.T if ta else A, B.T if tb else B) * (al or 1)
    ins = [a, b]
    if cs is not None:
        ins.append(ten(E, 'c', cs))
        r = r + obj(*vals(ins[2])) * (1 if be is None else be)
    if how == 'const':
        # constants pass through the kernel's own preparation
        k = E.m('inference.kernels').KernelRegistry.get('Gemm')
        for i in E.choice('const', [[1], [1, 2]]):
            if i < len(ins):
                ins[i] = k.preprocess_weight(f'w{i}', ins[i], at)
    run(E, 'Gemm', ins, at, [(flat(r), [2, 2])])


# ---- structure
def h_shape_ops(E, op):
    dt = E.choice('dt', [T.int64, F])
    if op == 'Transpose':
        s = E.choice('s', [[2, 3], [2, 1, 3], [2, 2, 1, 2]])
        perm = E.choice('perm', [None] + list(itertools.permutations(range(len(s))))[1:24])
        x = ten(E, 'x', s)
        r = obj(*vals(x)).transpose(perm)
        run(E, op, [x], {} if perm is None else {'perm': list(perm)}, [(flat(r), list(r.shape))])
    elif op == 'Reshape':
        x = ten(E, 'x', [2, 3, 2])
        t, s = E.choice('t', [([3, 4], [3, 4]), ([0, -1], [2, 6]), ([-1], [12]), ([0, 0, 2], [2, 3, 2]), ([6, -1, 1], [6, 2, 1]), ([3, 0, -1], None), ([-1, 0, 0], [2, 3, 2]), ([-1, 0, 1], [4, 3, 1]), ([6, 1, 0], [6, 1, 2]), ([-1, 3, 0], [2, 3, 2]), ([4, 0], [4, 3]), ([0, 3, -1, 1], [2, 3, 2, 1])])
        if s is None:
            t, s = [1, 0, 4], [1, 3, 4]
        run(E, op, [x, ints(t, dt)], {}, [(vals(x)[0], s)])
    elif op == 'Flatten':
        s = E.choice('s', [[2, 3], [2, 1, 2, 2], [2, 3, 2]])
        ax = E.choice('axis', [None, 0, 1, 2, -1])
        a = 1 if ax is None else ax if ax >= 0 else ax + len(s)
        x = ten(E, 'x', s)
        run(E, op, [x], {} if ax is None else {'axis': ax}, [(vals(x)[0], [int(np.prod(s[:a])), int(np.prod(s[a:]))])])
    elif op == 'Concat':
        ax = E.choice('axis', [0, 1, -1, -2])
        k = E.choice('k', [1, 2, 3])
        xs = [ten(E, f'x{i}', [1 + i, 2] if ax in (0, -2) else [2, 1 + i]) for i in range(k)]
        r = np.concatenate([obj(*vals(x)) for x in xs], ax)
        run(E, op, xs, {'axis': ax}, [(flat(r), list(r.shape))])
    elif op == 'Squeeze':
        s, ax = E.choice('c', [([1, 2, 1], None), ([1, 2, 1], [0]), ([1, 2, 1, 2], [0]), ([1, 2, 1], [2]), ([1, 2, 1], [-1]), ([1, 2, 1], [0, -1]), ([2, 1, 2], [1]), ([1, 1, 2], [1])])
        x = ten(E, 'x', s)
        r = obj(*vals(x))
        r = r.squeeze() if ax is None else r.squeeze(tuple(ax))
        how = E.choice('how', ['attr', 'input'])
        ins = [x] + ([ints(ax, dt)] if how == 'input' and ax is not None else [])
        run(E, op, ins, {'axes': ax} if how == 'attr' and ax is not None else {}, [(flat(r), list(r.shape))])
    elif op == 'Unsqueeze':
        s, ax = E.choice('c', [([2], [0]), ([2], [1]), ([2, 3], [0, 2]), ([3], [-1]), ([2, 3], [-1]), ([2, 3], [-2, 0]), ([3], [-1, -2]), ([2], [2, 0]), ([], [0]), ([2, 3], [0, -1])])
        x = ten(E, 'x', s)
        r = np.expand_dims(obj(*vals(x)), tuple(ax))
        how = E.choice('how', ['attr', 'input'])
        run(E, op, [x] + ([ints(ax, dt)] if how == 'input' else []), {'axes': ax} if how == 'attr' else {}, [(flat(r), list(r.shape))])
    elif op == 'Shape':
        s = E.choice('s', [[2, 3], [1], [3, 1, 2]])
        run(E, op, [ten(E, 'x', s)], {}, [(s, [len(s)])], dt=T.int64)
    elif op == 'Expand':
        s, t = E.choice('c', [([2, 1], [2, 3]), ([3], [2, 3]), ([1, 2, 1], [2, 2, 2]), ([2, 3], [2, 3])])
        x = ten(E, 'x', s)
        r = np.broadcast_to(obj(*vals(x)), t)
        run(E, op, [x, ints(t, dt)], {}, [(flat(r), t)])
    elif op == 'Tile':
        s, t = E.choice('c', [([2, 1], [1, 3]), ([3], [2]), ([1, 2], [2, 2]), ([2, 2], [1, 1]), ([1, 2, 1], [2, 1, 3])])
        x = ten(E, 'x', s)
        r = np.tile(obj(*vals(x)), t)
        run(E, op, [x, ints(t, dt)], {}, [(flat(r), list(r.shape))])
    elif op == 'Split':
        n, parts, ax = E.choice('c', [(4, [2, 2], 0), (4, [1, 3], 1), (6, [2, 2, 2], -1), (5, [1, 2, 2], 0), (3, [3], 0)])
        s = [2, 2]
        s[ax] = n
        x = ten(E, 'x', s)
        rs = np.split(obj(*vals(x)), np.cumsum(parts)[:-1], ax)
        how = E.choice('how', ['attr', 'input', 'even'])
        if how == 'even' and len(set(parts)) > 1:
            return
        at = {'axis': ax} if ax or E.choice('dflt', [0, 1]) else {}
        run(E, op, [x] + ([ints(parts, dt)] if how == 'input' else []), dict(at, **({'split': parts} if how == 'attr' else {})), [(flat(r), list(r.shape)) for r in rs])


def h_slice(E, how, s, k):
    axes = E.choice('axes', [a for a in itertools.permutations(range(-len(s), len(s)), k) if len({v % len(s) for v in a}) == k][:8])
    st = [E.choice(f'st{i}', [0, 1, -2]) for i in range(k)]
    en = [E.choice(f'en{i}', [2, -1, 1 << 40]) for i in range(k)]
    sp = [E.choice(f'sp{i}', [1, 2]) for i in range(k)] if k == 1 or how == 'full' else None
    x = ten(E, 'x', s)
    sl = [slice(None)] * len(s)
    if how == 'noaxes':
        axes = list(range(k))
        sp = None
    for i, a in enumerate(axes):
        sl[a] = slice(st[i], en[i], sp[i] if sp else 1)
    r = obj(*vals(x))[tuple(sl)]
    if 0 in r.shape:
        return
    if how == 'attrs':
        run(E, 'Slice', [x], {'starts': st, 'ends': en, 'axes': list(axes)} | ({'steps': sp} if sp else {}), [(flat(r), list(r.shape))])
        return
    dt = E.choice('dt', [T.int64, F]) if k == 1 else F
    ins = [x, ints(st, dt), ints(en, dt)]
    if how != 'noaxes':
        ins.append(ints(axes, dt))
        if sp:
            ins.append(ints(sp, dt))
    run(E, 'Slice', ins, {}, [(flat(r), list(r.shape))])


def pick(E, vals, i):
    """vals[i] for a symbolic i (negative from the end)"""
    n = len(vals)
    r = vals[0]
    for j in range(1, n):
        r = E.ite(E.any(i == j, i == j - n), vals[j], r)
    return r


def h_gather(E):
    s, ax = E.choice('c', [([3], 0), ([3, 2], 0), ([2, 3], 1), ([2, 3], -1), ([2, 3, 2], 1), ([3, 2, 2], -3)])
    si = E.choice('si', [[], [1], [2], [2, 2], [1, 2]])
    a = ax % len(s)
    x = ten(E, 'x', s)
    idx = [E.int(f'i{j}', -s[a], s[a] - 1) for j in range(int(np.prod(si)))]
    X = obj(*vals(x))
    r = np.empty(tuple(s[:a] + si + s[a + 1:]), object)
    for ix in np.ndindex(*r.shape):
        iv = idx[int(np.ravel_multi_index(ix[a:a + len(si)], si))] if si else idx[0]
        r[ix] = pick(E, list(X[ix[:a] + (slice(None),) + ix[a + len(si):]]), iv)
    run(E, 'Gather', [x, T.make(idx, si, T.int64)], {'axis': ax} if ax or E.choice('dflt', [0, 1]) else {}, [(flat(r), list(r.shape))])


def h_gatherel(E):
    s, si, ax = E.choice('c', [([3], [2], 0), ([3, 2], [2, 2], 0), ([2, 3], [2, 2], 1), ([2, 3], [1, 2], -1)])
    a = ax % len(s)
    x = ten(E, 'x', s)
    idx = [E.int(f'i{j}', -s[a], s[a] - 1) for j in range(int(np.prod(si)))]
    X, I = obj(*vals(x)), obj(idx, si)
    r = np.empty(tuple(si), object)
    for ix in np.ndindex(*si):
        r[ix] = pick(E, list(X[ix[:a] + (slice(None),) + ix[a + 1:]]), I[ix])
    run(E, 'GatherElements', [x, T.make(idx, si, T.int64)], {'axis': ax}, [(flat(r), si)])


def h_pad(E, mode):
    s = E.choice('s', [[2], [2, 3], [2, 1, 2]]) if mode == 'constant' else [1, 2, 3]
    free = range(len(s)) if mode == 'constant' else range(1, len(s))
    pw = [(0, 0)] * len(s)
    for i in free:
        pw[i] = E.choice(f'p{i}', [(0, 0), (1, 0), (0, 1), (1, 1)] if mode == 'reflect' else [(0, 0), (1, 0), (0, 2), (2, 1)])
    x = ten(E, 'x', s)
    cv = E.choice('value', [None, 7]) if mode == 'constant' else None
    X = obj(*vals(x))
    r = np.pad(X, pw, 'constant', constant_values=0 if cv is None else cv) if mode == 'constant' else np.pad(X, pw, mode)
    pads = [a for a, _ in pw] + [b for _, b in pw]
    m = E.choice('modeas', [None, mode, mode.encode()] if mode == 'constant' else [mode, mode.encode()])
    at = {} if m is None else {'mode': m}
    how = E.choice('how', ['attr', 'input', 'input_none']) if cv is None else E.choice('how', ['attr', 'input'])
    dt = E.choice('dt', [T.int64, F])
    if how == 'attr':
        run(E, 'Pad', [x], dict(at, pads=pads, **({} if cv is None else {'value': float(cv)})), [(flat(r), list(r.shape))])
    else:
        ins = [x, ints(pads, dt)] + ([T.make([T.cast(cv, F)], [], F)] if cv is not None else [None] if how == 'input_none' else [])
        run(E, 'Pad', ins, at, [(flat(r), list(r.shape))])


def h_resize(E, how):
    x = ten(E, 'x', [1, E.choice('c', [1, 2]), 2, E.choice('w', [1, 3])])
    fh, fw = E.choice('fh', [1, 2, 3]), E.choice('fw', [1, 2])
    X = obj(*vals(x))
    r = np.repeat(np.repeat(X, fh, 2), fw, 3)
    if X.shape[3] == 3 and how == 'scales' and fw == 2 and E.choice('frac', [0, 1]):
        fw, ix = E.choice('fs', [(1.5, [0, 0, 1, 2]), (0.5, [0])])
        r = np.repeat(X, fh, 2)[..., ix]
    mode = E.choice('mode', [None, 'nearest', b'nearest'])
    at = {} if mode is None else {'mode': mode}
    if how == 'sizes':
        ins = [x, None, None, ints(list(r.shape), E.choice('dt', [T.int64, F]))]
    else:
        ins = [x, None, T.make([T.cast(v, F) for v in (1, 1, fh, fw)], [4], F)]
    run(E, 'Resize', ins, at, [(flat(r), list(r.shape))])


def h_resize_linear(E, how):
    c, h, fh, fw = E.choice('dims', [(1, 1, 1, 2), (1, 2, 2, 1), (1, 2, 2, 2), (2, 2, 1, 3), (1, 3, 2, 2), (1, 3, 1, 3)])
    x = ten(E, 'x', [1, c, h, 2])
    ct, mode = E.choice('ct', [(None, 'linear'), ('half_pixel', b'linear'), (b'half_pixel', 'linear'), ('align_corners', 'linear'), (b'align_corners', b'linear')])
    X = obj(*vals(x))
    for d, f in ((2, fh), (3, fw)):
        n, rows = X.shape[d], []
        m = n * f
        for j in range(m):
            c = Fraction(j * (n - 1), m - 1) if ct in ('align_corners', b'align_corners') and m > 1 else Fraction(2 * j + 1, 2 * f) - Fraction(1, 2)
            c = min(max(c, 0), n - 1)
            lo = int(c)
            t = c - lo
            rows.append(X.take(lo, d) if t == 0 else X.take(lo, d) * (1 - t) + X.take(lo + 1, d) * t)
        X = np.stack(rows, d)
    at = {'mode': mode}
    if ct is not None:
        at['coordinate_transformation_mode'] = ct
    if how == 'sizes':
        ins = [x, None, None, ints(list(X.shape), E.choice('dt', [T.int64, F]))]
    else:
        ins = [x, None, T.make([T.cast(v, F) for v in (1, 1, fh, fw)], [4], F)]
    run(E, 'Resize', ins, at, [(flat(X), list(X.shape))])


def h_topk(E):
    ax, k = E.choice('axis', [None, 0, -1, 1]), E.choice('k', [1, 2])
    lg = E.choice('largest', [None, 1, 0])
    x = ten(E, 'x', [2, 2] if ax in (0,) else [1, 3])
    if ax is None or ax in (1, -1):
        a = 1
    else:
        a = ax
    X = obj(*vals(x))
    E.assume(E.all(*[X[i] != X[j] for i in np.ndindex(*X.shape) for j in np.ndindex(*X.shape) if i < j]))
    KN = E.m('inference.kernels')
    s = list(X.shape)
    s[a] = k
    o = [T.empty(*s, dtype=F), T.empty(*s, dtype=T.int64)]
    r = E.call(KN.KernelRegistry.get('TopK').run, [x, ints([k])], o, {k2: v for k2, v in (('axis', ax), ('largest', lg)) if v is not None})
    if not r.ok:
        E.fail(f'TopK raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    V, I = obj(*vals(o[0])), obj(*vals(o[1]))
    up = lg is None or lg == 1
    for ix in np.ndindex(*s):
        row = list(X[ix[:a] + (slice(None),) + ix[a + 1:]])
        E.check(E.eq(V[ix], pick(E, row, I[ix])), 'TopK: indices point at the values')
        better = 0
        for v in row:
            better = better + E.ite(v > V[ix] if up else v < V[ix], 1, 0)
        E.check(E.eq(better, ix[a]), 'TopK: order')


# ---- reductions and normalisations
def h_reduce(E, op):
    s, ax = E.choice('c', [([2, 3], [0]), ([2, 3], [1]), ([2, 3], [-1]), ([2, 2, 2], [0, 2]), ([2, 1, 2], [-1, 1]), ([2, 3], None), ([3], [0])])
    kd = E.choice('keep', [None, 0, 1])
    x = ten(E, 'x', s)
    X = obj(*vals(x))
    axes = tuple(v % len(s) for v in ax) if ax is not None else tuple(range(len(s)))
    o = [1 if i in axes else d for i, d in enumerate(s)]
    r = np.empty(tuple(o), object)
    for ix in np.ndindex(*o):
        vs = flat(X[tuple(slice(None) if i in axes else v for i, v in enumerate(ix))])
        t = vs[0]
        for v in vs[1:]:
            t = E.ite(v > t, v, t) if op == 'ReduceMax' else t + v
        r[ix] = t / len(vs) if op == 'ReduceMean' else t
    if kd == 0:
        r = r.reshape([d for i, d in enumerate(s) if i not in axes])
    how = E.choice('how', ['attr', 'input'])
    ins = [x] + ([ints(ax, E.choice('dt', [T.int64, F]))] if how == 'input' and ax is not None else [])
    at = {} if kd is None else {'keepdims': kd}
    if how == 'attr' and ax is not None:
        at['axes'] = ax
    run(E, op, ins, at, [(flat(r), list(r.shape))])


def h_softmax(E):
    s, ax = E.choice('c', [([3], None), ([2, 2], 0), ([2, 2], 1), ([2, 2], -1), ([1, 2, 2], 1)])
    x = ten(E, 'x', s)
    a = -1 if ax is None else ax
    e = obj([T.uf('exp', v) for v in vals(x)[0]], s)
    m = np.moveaxis(e, a, -1)
    t = np.empty(m.shape[:-1], object)
    for ix in np.ndindex(*t.shape):
        t[ix] = sum(list(m[ix])[1:], m[ix][0])
    r = np.empty(tuple(s), object)
    a = a % len(s)
    for ix in np.ndindex(*s):
        r[ix] = e[ix] / t[ix[:a] + ix[a + 1:]]
    run(E, 'Softmax', [x], {} if ax is None else {'axis': ax}, [(flat(r), s)])


def h_bn(E):
    s = E.choice('s', [[1, 2, 1, 2], [2, 2], [1, 1, 2, 1]])
    eps = E.choice('eps', [None, 0.25])
    c = s[1]
    x, sc, b, m = ten(E, 'x', s), ten(E, 's', [c]), ten(E, 'b', [c]), ten(E, 'm', [c])
    v = ten(E, 'v', [c], 0, 4)
    e = 1e-5 if eps is None else eps
    r = np.empty(tuple(s), object)
    X = obj(*vals(x))
    if E.sym:
        for k in range(c):
            E.assume(T.uf('sqrt', v.flat()[k] + e) > 0)
    for ix in np.ndindex(*s):
        k = ix[1]
        r[ix] = (X[ix] - m.flat()[k]) / T.uf('sqrt', v.flat()[k] + e) * sc.flat()[k] + b.flat()[k]
    run(E, 'BatchNormalization', [x, sc, b, m, v], {} if eps is None else {'epsilon': eps}, [(flat(r), s)])


def h_ln(E, op, kind):
    s = E.choice('s', [[1, 2, 2], [2, 3, 2], [3, 2]] if kind != 'heads' else [[1, 1, 4], [1, 2, 6], [2, 1, 2]])
    hd = 2
    eps = None if op == 'Layernrom' else E.choice('eps', [None, 0.25])
    x, w, b = ten(E, 'x', s), ten(E, 'w', [hd]), ten(E, 'b', [hd])
    e = 1e-5 if eps is None else eps
    v = x.flat()
    r = []
    rms = kind in ('rms', 'heads')
    ax = E.choice('axes', [[-1], [len(s) - 1], [-2, -1]][:3 if s == [1, 2, 2] else 2]) if op == 'Layernrom' else [-1]
    for i in range(0, len(v), hd):
        row = v[i:i + hd]
        k = s[-2] * hd if len(ax) == 2 else hd
        grp = v[i - i % k:i - i % k + k]
        mu = 0 if rms else sum(grp[1:], grp[0]) / k
        sq = [(u - mu) * (u - mu) for u in grp]
        var = sum(sq[1:], sq[0]) / k
        d = T.uf('sqrt', var + e)
        if E.sym:
            E.assume(d > 0)
        r += [(u - mu) / d * g + (0 if rms or kind == 'nobias' else h) for u, g, h in zip(row, w.flat(), b.flat())]
    at = {} if eps is None else {'epsilon': eps}
    if rms:
        at['type'] = E.choice('enc', ['rms', b'rms'])
    elif op != 'Layernrom' and kind == 'layer':
        lt = E.choice('enc', [None, 'layer', b'layer'])
        if lt is not None:
            at['type'] = lt
    if op == 'Layernrom':
        at = {'ReduceMean0_axes': ax}
    run(E, op, [x, w] + ([] if kind in ('rms', 'heads', 'nobias') else [b]), at, [(r, s)])


def h_mad(E):
    x, w, b = ten(E, 'x', [2, 2]), ten(E, 'w', [2]), ten(E, 'b', E.choice('sb', [[2], [2, 1]]))
    t, s = bc(E, lambda a, c: a * c, *vals(x), *vals(w))
    t, s = bc(E, lambda a, c: a + c, t, s, *vals(b))
    run(E, 'Mad', [x, w, b], {}, [(t, s)])


def h_rangegather(E):
    n, past = E.choice('n', [1, 2, 3]), E.choice('past', [0, 1, 3])
    w = ten(E, 'w', [6, 2])
    r = w.flat()[2 * past:2 * (past + n)]
    run(E, 'RangeGather', [T.make([n], E.choice('sn', [[], [1]]), T.int64), None, None, None, w, T.make([past], [], T.int64)], {}, [(r, [n, 2])])


# ---- windows
def h_conv(E, tall):
    n, g, mg, cg = E.choice('ch', [(1, 1, 1, 1), (1, 1, 1, 2), (1, 2, 1, 1), (1, 2, 1, 2), (2, 1, 1, 1), (1, 2, 2, 1), (1, 1, 3, 1)])
    k = [2, 1] if tall else [1, 2]
    st = [E.choice(f's{i}', [1, 2]) for i in range(2)]
    dl = [E.choice(f'd{i}', [1, 2]) if k[i] > 1 else 1 for i in range(2)]
    pads = E.choice('pads', [None, [0, 1, 0, 1], [1, 0, 1, 0], [1, 2, 1, 2], [0, 0, 1, 0], [0, 1, 2, 0]])
    p = pads or [0, 0, 0, 0]
    h, w = (3, 2) if tall else (2, 3)
    x, ww = ten(E, 'x', [n, g * cg, h, w]), ten(E, 'w', [g * mg, cg] + k)
    b = ten(E, 'b', [g * mg]) if E.choice('bias', [0, 1]) else None
    o = [(sz + p[i] + p[i + 2] - dl[i] * (k[i] - 1) - 1) // st[i] + 1 for i, sz in enumerate((h, w))]
    X, W = obj(*vals(x)), obj(*vals(ww))
    r = np.empty((n, g * mg, *o), object)
    for z0, m, i, j in np.ndindex(*r.shape):
        t = 0 if b is None else b.flat()[m]
        for c in range(cg):
            for u in range(k[0]):
                for v in range(k[1]):
                    y, z = i * st[0] - p[0] + u * dl[0], j * st[1] - p[1] + v * dl[1]
                    if 0 <= y < h and 0 <= z < w:
                        t = t + X[z0, (m // mg) * cg + c, y, z] * W[m, c, u, v]
        r[z0, m, i, j] = t
    at = {'kernel_shape': k, 'strides': st, 'dilations': dl, 'group': g}
    if pads is not None:
        at['pads'] = pads
    if st == [1, 1] and dl == [1, 1] and g == 1 and E.choice('dflt', [0, 1]):
        at = {'pads': pads} if pads is not None else {}
    run(E, 'Conv', [x, ww] + ([b] if b is not None else []), at, [(flat(r), list(r.shape))])


def h_pool(E, op):
    k = E.choice('k', [[2, 2], [2, 1], [3, 2]])
    st = [E.choice(f's{i}', [1, 2]) for i in range(2)]
    pads = E.choice('pads', [None, [1, 0, 1, 0], [0, 0, 1, 0], [1, 0, 0, 0]] + ([[0, 1, 0, 1], [1, 1, 1, 1], [0, 1, 1, 0]] if k[1] > 1 else []))
    cip = E.choice('cip', [None, 0, 1]) if op == 'AveragePool' else None
    p = pads or [0, 0, 0, 0]
    h, w = 3, 3
    o = [(sz + p[i] + p[i + 2] - k[i]) // st[i] + 1 for i, sz in enumerate((h, w))]
    B, C = E.choice('bc', [(1, 1), (1, 2), (2, 1)]) if pads in (None, [0, 0, 1, 0]) and st != [2, 1] else (1, 1)
    x = ten(E, 'x', [B, C, h, w])
    X = obj(*vals(x))
    r = np.empty((B, C, *o), object)
    for z0, z1, i, j in np.ndindex(*r.shape):
        vs = [X[z0, z1, y, z] for y in range(i * st[0] - p[0], i * st[0] - p[0] + k[0]) for z in range(j * st[1] - p[1], j * st[1] - p[1] + k[1]) if 0 <= y < h and 0 <= z < w]
        t = vs[0]
        for v in vs[1:]:
            t = E.ite(v > t, v, t) if op == 'MaxPool' else t + v
        r[z0, z1, i, j] = t if op == 'MaxPool' else t / (k[0] * k[1] if cip else len(vs))
    at = {'kernel_shape': k, 'strides': st} if st != [1, 1] or E.choice('dflt', [0, 1]) else {'kernel_shape': k}
    if pads is not None:
        at['pads'] = pads
    if cip is not None:
        at['count_include_pad'] = cip
    run(E, op, [x], at, [(flat(r), list(r.shape))])


def h_gap(E):
    s = E.choice('s', [[1, 2, 2, 1], [2, 1, 2, 2]])
    x = ten(E, 'x', s)
    X = obj(*vals(x))
    r = []
    for n, c in np.ndindex(*s[:2]):
        vs = flat(X[n, c])
        r.append(sum(vs[1:], vs[0]) / len(vs))
    run(E, 'GlobalAveragePool', [x], {}, [(r, s[:2] + [1, 1])])


# ---- attention
def softrow(e):
    t = sum(e[1:], e[0])
    return [v / t for v in e]


def h_sdpa(E, form, cache):
    N, KV, D, B, S = E.choice('heads', [(1, 1, 1, 1, 1), (1, 1, 2, 1, 2), (2, 2, 1, 1, 2), (2, 2, 2, 1, 1), (2, 1, 1, 2, 2), (2, 1, 2, 1, 1), (4, 2, 1, 1, 1), (1, 1, 1, 1, 3), (1, 1, 2, 2, 1), (3, 3, 1, 1, 1), (6, 2, 1, 1, 1)])
    past = E.choice('past', [0, 1, 2] if N < 4 else [0, 1]) if cache else 0
    layer = E.choice('layer', [0, 1, 2]) if cache else 0
    Q, K, V = ten(E, 'q', [B, S, N * D]), ten(E, 'k', [B, S, KV * D]), ten(E, 'v', [B, S, KV * D])
    room, wide, npf, kva = E.choice('more', [(0, 0, [], 1), (1, 1, [1], 0), (1, 0, [1, 2], 1)]) if cache else (0, 0, [], E.choice('kvattr', [0, 1]))
    C, H = past + S + room, KV * D + wide
    kv = ten(E, 'kv', [B, 6, C, H]) if cache else None
    kv0 = obj(*vals(kv)).copy() if cache else None
    arr = lambda t: obj(*vals(t))
    Qa, Ka, Va = arr(Q), arr(K), arr(V)
    r = []
    for b in range(B):
        q, k, v = [[list(a[b, i]) for i in range(S)] for a in (Qa, Ka, Va)]
        ks = ([list(kv0[b, 2 * layer, i]) for i in range(past)] if cache else []) + k
        vs = ([list(kv0[b, 2 * layer + 1, i]) for i in range(past)] if cache else []) + v
        for i in range(S):
            for n in range(N):
                m = n // (N // KV)
                sc = [T.uf('exp', dot(q[i][n * D:(n + 1) * D], ks[j][m * D:(m + 1) * D]) / (D ** 0.5)) for j in range(past + i + 1)]
                a = softrow(sc)
                for d in range(D):
                    r.append(dot(a, [vs[j][m * D + d] for j in range(past + i + 1)]))
    at = {'head_num': N, 'kv_head_num': KV, 'layer_i': layer}
    if KV == N and not kva:
        del at['kv_head_num']
    if form == '4d':
        ins = [Q.reshape(B, S, N, D).transpose(1, 2), K.reshape(B, S, KV, D).transpose(1, 2), V.reshape(B, S, KV, D).transpose(1, 2)]
    else:
        ins = [Q, K, V]
    if cache:
        ins += [T.make([past, past + 1] if len(npf) == 2 else [past], npf, T.int64), kv]
    o = T.empty(B, S, N * D)
    res = E.call(E.m('inference.kernels').KernelRegistry.get('SDPA').run, ins, [o], at)
    if not res.ok:
        E.fail(f'SDPA raises {type(res.exc).__name__}: {str(res.exc)[:90]}')
    same_vals(E, o.flat(), r, 'SDPA: output', False)
    if cache:
        w = kv0.copy()
        for b, i, d in np.ndindex(B, S, KV * D):
            w[b, 2 * layer, past + i, d], w[b, 2 * layer + 1, past + i, d] = Ka[b, i, d], Va[b, i, d]
        same_vals(E, kv.flat(), flat(w), 'SDPA: the cache gains this step and keeps the rest')


def h_rope(E, form, table):
    B, N, S, half = E.choice('dims', [(1, 1, 1, 1), (1, 2, 2, 1), (1, 1, 2, 2), (1, 3, 1, 2), (2, 1, 1, 1), (2, 2, 1, 1), (2, 1, 2, 1), (2, 2, 1, 2), (1, 1, 3, 1)])
    M, D = 3, 2 * half
    x = ten(E, 'x', [B, S, N * D])
    ts = [1, M, half] if table == 3 else [1, 1, M, half]
    cs, sn = ten(E, 'c', ts), ten(E, 's', ts)
    pos = [E.int(f'p{i}', 0, M - 1) for i in range(B * S)]
    tab = lambda t, p, d: pick(E, [t.flat()[j * half + d] for j in range(M)], p)
    X = obj(x.flat(), (B, S, N, D))
    r = np.empty((B, S, N, D), object)
    for z, i, n, d in np.ndindex(B, S, N, half):
        c, s = tab(cs, pos[z * S + i], d), tab(sn, pos[z * S + i], d)
        a, b = X[z, i, n, d], X[z, i, n, d + half]
        r[z, i, n, d], r[z, i, n, d + half] = a * c - b * s, a * s + b * c
    p = T.make(pos, [B, S], T.int64)
    if form == '4d':
        run(E, 'Rope', [x.reshape(B, S, N, D).transpose(1, 2), cs, sn, p], {}, [(flat(r.transpose(0, 2, 1, 3)), [B, N, S, D])])
    else:
        run(E, 'Rope', [x, cs, sn, p], {}, [(flat(r), [B, S, N * D])])


def obligations(tier):
    th = tier == 'thorough'
    o = lambda name, fn, w=1, **cfg: Ob(name, fn, cfg, poly=True, weight=w)
    obs = [o(f'bin-{p}', h_bin, op=p) for p in BIN] + [o(f'cmp-{p}', h_cmp, op=p) for p in CMP] + [o(f'un-{p}', h_un, op=p) for p in UN]
    obs += [o('leaky', h_leaky), o('clip-attrs', h_clip, form='attrs'), o('clip-inputs', h_clip, form='inputs'), o('pow', h_pow), o('mod', h_mod, 2), o('where', h_where),
            o('cast', h_cast), o('matmul', h_matmul), o('gemm-dyn', h_gemm, 2, how='dyn'), o('gemm-const', h_gemm, 2, how='const')]
    obs += [o(f'shape-{p}', h_shape_ops, op=p) for p in ('Transpose', 'Reshape', 'Flatten', 'Concat', 'Squeeze', 'Unsqueeze', 'Shape', 'Expand', 'Tile', 'Split')]
    obs += [o(f'slice-{h}-{len(s)}{k}', h_slice, 3, how=h, s=s, k=k) for h in ('full', 'attrs', 'noaxes') for s, k in (([4], 1), ([3, 4], 1), ([3, 4], 2), ([2, 3, 3], 1), ([2, 3, 3], 2))]
    obs += [o('gather', h_gather, 4), o('gatherelements', h_gatherel, 2)] + [o(f'pad-{m}', h_pad, 3, mode=m) for m in ('constant', 'reflect', 'edge')]
    obs += [o(f'resize-{h}', h_resize, how=h) for h in ('sizes', 'scales')] + [o(f'resize-linear-{h}', h_resize_linear, how=h) for h in ('sizes', 'scales')] + [o('topk', h_topk, 3)]
    obs += [o(f'reduce-{p}', h_reduce, 2, op=p) for p in ('ReduceMean', 'ReduceSum', 'ReduceMax')] + [o('softmax', h_softmax), o('batchnorm', h_bn)]
    obs += [o(f'ln-{k}', h_ln, op='LayerNormalization', kind=k) for k in ('layer', 'nobias', 'rms', 'heads')] + [o('ln-fused', h_ln, op='Layernrom', kind='layer'), o('mad', h_mad),
            o('rangegather', h_rangegather), o('gap', h_gap)]
    obs += [o(f'conv-{t}', h_conv, 5, tall=t) for t in (True, False)] + [o(f'pool-{p}', h_pool, 4, op=p) for p in ('MaxPool', 'AveragePool')]
    obs += [o(f'sdpa-{f}-{c}', h_sdpa, 4, form=f, cache=c) for f in ('3d', '4d') for c in (False, True)]
    obs += [o(f'rope-{f}-{t}', h_rope, 2, form=f, table=t) for f in ('3d', '4d') for t in (3, 4)]
    return obs


BOUNDS = {
    'values': 'every element real (or integer, -20..20) and symbolic in [-4, 4] or so, indices symbolic and signed, exact real arithmetic with exp, tanh, erf and sqrt uninterpreted',
    'shapes': 'ranks 0-4 with extents 1-6, every attribute form listed in the harnesses, operands as attributes, integer tensors and float tensors (as the engine hands over constants)',
    'windows': 'kernels up to 3x2, strides and dilations 1-2, symmetric and asymmetric pads up to 2, groups 1-2',
    'attention': '1-2 heads (grouped too), head size 1-2, 1-2 new tokens, 0-2 cached ones, two layers of cache; rotary tables of 3 positions and half size 1-2',
}
OUTSIDE = 'torch itself (absent here): the kernels run over the stand-in in /verif/symex/ftorch.py; rounding; auto_pad, ceil_mode and dilated pooling; cubic Resize and asymmetric coordinates, Gelu; Slice with negative steps; results with no element; TopK ties'
ASSUMPTIONS = ['torch is replaced by a stand-in (strided views over a byte store, exact real arithmetic); replays run the real kernels over the same stand-in']
