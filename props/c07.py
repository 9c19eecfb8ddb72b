"""C07 - constant folding of layout, selection and reduction operators moves every element where ONNX puts it."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .c03 import I64, ten, pick_axes, BIG
from .c06 import mk, check_arr

F32 = np.float32


def data(E, shape, dt=I64, name='x'):
    """an array with independent symbolic elements, their list, and the array of their positions"""
    x = mk(E, name, shape, dt)
    return x, E.elems(x), np.arange(int(np.prod(shape))).reshape(shape)


def fold(E, op, attrs, ins, nout=1):
    outs = [E.t(f'o{i}', []) for i in range(nout)]
    E.mknode(op, attrs, len(ins), nout).value_infer(ins, outs)
    return outs


def moved(E, out, el, ids, dt, op):
    check_arr(E, out, [el[i] for i in ids.reshape(-1)], ids.shape, dt, op, np.dtype(dt).kind != 'f')


def h_slice(E, shape, naxes, how, steps, full=False):
    x, el, ids = data(E, shape)
    r = len(shape)
    if how in ('1noaxes', '3'):
        axes, pos = list(range(naxes)), list(range(naxes))
    else:
        axes, pos = pick_axes(E, 'a', naxes, r)
    st, S, En, sl = [], [], [], [slice(None)] * r
    for i, p in enumerate(pos):
        few = naxes == 2 and how in ('1', '4') and not full
        k = E.choice(f'st{i}', steps) if how == '5' else 1
        n = shape[p]
        s = E.choice(f's{i}', sorted({-n - 1, -1, 1} if few else {-n - 1, -n, -1, 0, 1, n - 1, n + 1}))
        e = E.choice(f'e{i}', sorted({-1, 1, BIG} if few else {-n - 1, -n, -1, 0, 1, n, BIG if k > 0 else -BIG}))
        if k < 0:
            E.assume(s >= -n)
        S.append(s)
        En.append(e)
        st.append(k)
        sl[p] = slice(s, e, k)
    attrs, ins = {}, [E.t('x', value=x)]
    if how.startswith('1'):
        attrs = {'starts': S, 'ends': En}
        if how == '1':
            attrs['axes'] = tuple(axes)
    else:
        ins += [ten(E, 's', S), ten(E, 'e', En)]
        if how in ('4', '5'):
            ins.append(ten(E, 'a', axes))
        if how == '5':
            ins.append(ten(E, 'st', st))
    moved(E, fold(E, 'Slice', attrs, ins)[0], el, ids[tuple(sl)], I64, 'Slice')


def h_gather(E, shape, q, axis):
    x, el, ids = data(E, shape)
    a = 0 if axis is None else axis % len(shape)
    n = shape[a]
    qn = int(np.prod(q)) if q else 1
    idx = [E.int(f'i{k}', -n, n - 1) for k in range(qn)]
    arr = E.array(np.array(idx, dtype=object).reshape(q).tolist() if q else idx[0], I64)
    out = fold(E, 'Gather', {} if axis is None else {'axis': axis}, [E.t('x', value=x), E.t('i', value=arr)])[0]
    shp = tuple(shape[:a]) + tuple(q) + tuple(shape[a + 1:])
    want = []
    for pos in np.ndindex(*shp):
        qi = pos[a:a + len(q)]
        j = idx[int(np.ravel_multi_index(qi, q)) if q else 0]
        w = el[int(ids[pos[:a] + (0,) + pos[a + len(q):]])]
        for k in range(1, n):
            w = E.ite(E.any(j == k, j == k - n), el[int(ids[pos[:a] + (k,) + pos[a + len(q):]])], w)
        want.append(w)
    check_arr(E, out, want, shp, I64, 'Gather', True)


def h_gatherel(E, shape, ishape, axis):
    x, el, ids = data(E, shape, F32)
    a = 0 if axis is None else axis % len(shape)
    n = shape[a]
    arr = np.array([E.choice(f'i{k}', range(-n, n)) for k in range(int(np.prod(ishape)))], dtype=I64).reshape(ishape)
    out = fold(E, 'GatherElements', {} if axis is None else {'axis': axis}, [E.t('x', value=x), E.t('i', value=E.array(arr, I64))])[0]
    w = np.empty(ishape, dtype=int)
    for p in np.ndindex(*ishape):
        q = list(p)
        q[a] = arr[p]
        w[p] = ids[tuple(q)]
    moved(E, out, el, w, F32, 'GatherElements')


def h_gathernd(E, shape, ishape, b):
    x, el, ids = data(E, shape)
    k = ishape[-1]
    arr = np.zeros(ishape, dtype=I64)
    for p in np.ndindex(*ishape):
        n = shape[b + p[-1]]
        arr[p] = E.choice('i' + '_'.join(map(str, p)), range(n))
    out = fold(E, 'GatherND', {'batch_dims': b} if b else {}, [E.t('x', value=x), E.t('i', value=E.array(arr, I64))])[0]
    lead = ishape[:-1]
    w = np.empty(lead + shape[b + k:], dtype=int)
    for p in np.ndindex(*lead):
        w[p] = ids[p[:b] + tuple(arr[p])]
    moved(E, out, el, w, I64, 'GatherND')


def h_scatternd(E, shape, ishape, red):
    x, el, ids = data(E, shape)
    k = ishape[-1]
    arr = np.zeros(ishape, dtype=I64)
    for p in np.ndindex(*ishape):
        arr[p] = E.choice('i' + '_'.join(map(str, p)), range(shape[p[-1]]))
    ush = ishape[:-1] + shape[k:]
    u, uel, uid = data(E, ush, I64, 'u')
    if red is None:                 # without a reduction duplicate indices are not allowed
        rows = [tuple(arr[p]) for p in np.ndindex(*ishape[:-1])]
        E.assume(len(set(rows)) == len(rows))
    attrs = {} if red is None else {'reduction': red}
    out = fold(E, 'ScatterND', attrs, [E.t('x', value=x), E.t('i', value=E.array(arr, I64)), E.t('u', value=u)])[0]
    want = list(el)
    f = {None: lambda a, b: b, b'none': lambda a, b: b, b'add': lambda a, b: a + b, b'mul': lambda a, b: a * b, b'max': E.max, b'min': E.min}[red]
    for p in np.ndindex(*ishape[:-1]):
        for q in np.ndindex(*shape[k:]):
            d = int(ids[tuple(arr[p]) + q])
            want[d] = f(want[d], uel[int(uid[p + q])])
    check_arr(E, out, want, shape, I64, 'ScatterND', True)
    E.check(E.same(E.elems(x), el), 'ScatterND: the input tensor was modified')


def h_concat(E, shapes, axis):
    ds = [data(E, s, I64, 'xyz'[i]) for i, s in enumerate(shapes)]
    el, off, ids = [], 0, []
    for x, e, i in ds:
        ids.append(i + off)
        off += len(e)
        el += e
    out = fold(E, 'Concat', {'axis': axis}, [E.t(f'i{i}', value=d[0]) for i, d in enumerate(ds)])[0]
    moved(E, out, el, np.concatenate(ids, axis), I64, 'Concat')


def h_split(E, shape, axis, n, how):
    x, el, ids = data(E, shape)
    a = 0 if axis is None else axis % len(shape)
    attrs = {} if axis is None else {'axis': axis}
    ins = [E.t('x', value=x)]
    d = shape[a]
    if how == 'even':
        c = -(-d // n)
        sizes = [c] * (n - 1) + [d - c * (n - 1)]
    else:
        sizes, left = [], d
        for i in range(n - 1):
            v = E.choice(f'p{i}', range(left + 1))
            sizes.append(v)
            left -= v
        sizes.append(left)
        if how == 'attr':
            attrs['split'] = sizes
        else:
            ins.append(ten(E, 'sp', sizes))
    outs = fold(E, 'Split', attrs, ins, n)
    for o, w in zip(outs, np.split(ids, np.cumsum(sizes)[:-1], a)):
        moved(E, o, el, w, I64, 'Split')


def h_perm(E, shape, default):
    x, el, ids = data(E, shape)
    r = len(shape)
    if default:
        moved(E, fold(E, 'Transpose', {}, [E.t('x', value=x)])[0], el, ids.T, I64, 'Transpose')
        return
    perm = [E.choice(f'p{i}', range(r)) for i in range(r)]
    E.assume(len(set(perm)) == r)
    moved(E, fold(E, 'Transpose', {'perm': perm}, [E.t('x', value=x)])[0], el, ids.transpose(perm), I64, 'Transpose')


def h_reshape(E, shape, tgt, want):
    x, el, ids = data(E, shape)
    moved(E, fold(E, 'Reshape', {}, [E.t('x', value=x), ten(E, 's', tgt)])[0], el, ids.reshape(want), I64, 'Reshape')


def h_flatten(E, shape, axis):
    x, el, ids = data(E, shape)
    r = len(shape)
    a = 1 if axis is None else axis + r if axis < 0 else axis
    out = fold(E, 'Flatten', {} if axis is None else {'axis': axis}, [E.t('x', value=x)])[0]
    moved(E, out, el, ids.reshape(int(np.prod(shape[:a])), -1), I64, 'Flatten')


def h_squeeze(E, shape, n, how):
    x, el, ids = data(E, shape)
    ins, attrs = [E.t('x', value=x)], {}
    if n is None:
        w = ids.reshape([d for d in shape if d != 1])
    else:
        ones = [i for i, d in enumerate(shape) if d == 1]
        raw, pos = pick_axes(E, 'a', n, len(shape))
        E.assume(all(p in ones for p in pos))
        w = ids.reshape([d for i, d in enumerate(shape) if i not in pos])
        if how == 'attr':
            attrs['axes'] = tuple(raw)
        else:
            ins.append(ten(E, 'ax', raw))
    moved(E, fold(E, 'Squeeze', attrs, ins)[0], el, w, I64, 'Squeeze')


def h_unsqueeze(E, shape, n, how):
    x, el, ids = data(E, shape)
    r = len(shape)
    raw, pos = pick_axes(E, 'a', n, r + n)
    it = iter(shape)
    w = ids.reshape([1 if i in pos else next(it) for i in range(r + n)])
    ins, attrs = [E.t('x', value=x)], {}
    if how == 'attr':
        attrs['axes'] = tuple(raw)
    else:
        ins.append(ten(E, 'ax', raw))
    moved(E, fold(E, 'Unsqueeze', attrs, ins)[0], el, w, I64, 'Unsqueeze')


def h_expand(E, shape, tgt):
    x, el, ids = data(E, shape)
    w = np.broadcast_to(ids, np.broadcast_shapes(shape, tuple(tgt)))
    moved(E, fold(E, 'Expand', {}, [E.t('x', value=x), ten(E, 't', tgt)])[0], el, w, I64, 'Expand')


def h_tile(E, shape):
    x, el, ids = data(E, shape)
    t = [E.choice(f't{i}', range(3)) for i in range(len(shape))]
    moved(E, fold(E, 'Tile', {}, [E.t('x', value=x), ten(E, 't', t)])[0], el, np.tile(ids, t), I64, 'Tile')


def h_pad(E, shape, how, mode, neg=False):
    x, el, ids = data(E, shape, F32)
    r = len(shape)
    attrs, ins, cv = {}, [E.t('x', value=x)], 0
    if mode is not None:
        attrs['mode'] = mode
    m = mode or b'constant'
    hi = min(shape) - 1 if m == b'reflect' else 2
    if neg:                                      # negative pads crop
        p = [E.choice(f'p{i}', [-1, 0, 1] if r > 1 else [-2, -1, 0, 1, 2]) for i in range(2 * r)]
        E.assume(E.all(*[shape[i] + min(p[i], 0) + min(p[i + r], 0) > (m != b'constant') for i in range(r)]))
    else:
        p = [E.choice(f'p{i}', range(hi + 1)) for i in range(2 * r)]
    if how == 'attr':
        attrs['pads'] = p
    else:
        ins.append(ten(E, 'p', p))
        if how == 'value':
            cv = E.real('cv', -10, 10)
            ins.append(E.t('v', value=E.array(cv, F32)))
    pw = list(zip(p[:r], p[r:]))
    crop = ids[tuple(slice(max(-b, 0), n - max(-e, 0)) for n, (b, e) in zip(shape, pw))]
    w = np.pad(crop, [(max(b, 0), max(e, 0)) for b, e in pw], mode=m.decode(), **({'constant_values': -1} if m == b'constant' else {}))
    out = fold(E, 'Pad', attrs, ins)[0]
    check_arr(E, out, [cv if i < 0 else el[i] for i in w.reshape(-1)], w.shape, F32, 'Pad', False)


def h_trilu(E, shape, upper):
    x, el, ids = data(E, shape)
    k = E.choice('k', [None, -2, -1, 0, 1, 2])
    ins = [E.t('x', value=x)] + ([] if k is None else [E.t('k', value=E.array(k, I64))])
    f = np.tril if upper == 0 else np.triu
    w = f(ids + 1, 0 if k is None else k) - 1
    out = fold(E, 'Trilu', {} if upper is None else {'upper': upper}, ins)[0]
    check_arr(E, out, [0 if i < 0 else el[i] for i in w.reshape(-1)], shape, I64, 'Trilu', True)


def h_cos(E, shape, dt):
    v = E.int('v', 1, 9)
    attrs = {} if dt is None else {'value': E.array([v], dt)}
    s = [E.choice(f's{i}', range(3)) for i in range(shape)]
    out = fold(E, 'ConstantOfShape', attrs, [ten(E, 's', s)])[0]
    check_arr(E, out, [0 if dt is None else v] * int(np.prod(s)), s, F32 if dt is None else dt, 'ConstantOfShape', dt is not None)


def h_range(E, sgn):
    s, d = E.int('s', -6, 6), E.choice('d', [1, 2, 3]) * sgn
    l = E.int('l', -6, 6)
    out = fold(E, 'Range', {}, [E.t(n, value=E.array(v, I64)) for n, v in (('s', s), ('l', l), ('d', d))])[0]
    got = E.elems(out.get_numpy())
    E.observe('range', got)
    for i, g in enumerate(got):
        E.check(g == s + i * d, 'Range: value')
        E.check((g < l) if sgn > 0 else (g > l), 'Range: element beyond the limit')
    nxt = s + len(got) * d
    E.check(E.no(nxt < l) if sgn > 0 else E.no(nxt > l), 'Range: missing element')
    E.check(dtype_is(out, I64), 'Range: element type')


def groups(E, shape, axes):
    """for each output position of a reduction over `axes` (kept as 1): the positions reduced"""
    ids = np.arange(int(np.prod(shape))).reshape(shape)
    osh = tuple(1 if i in axes else d for i, d in enumerate(shape))
    out = []
    for p in np.ndindex(*osh):
        sl = tuple(slice(None) if i in axes else q for i, q in enumerate(p))
        out.append([int(v) for v in ids[sl].reshape(-1)])
    return osh, out


def h_reduce(E, op, shape, n, how, keep, dt=None):
    fl = op in ('ReduceMean', 'ReduceL2')
    dt = dt or (F32 if fl else I64)
    x, el, ids = data(E, shape, dt) if op != 'ReduceProd' else (lambda t: (t, E.elems(t), None))(mk(E, 'x', shape, dt, -9, 9))
    ins, attrs = [E.t('x', value=x)], {}
    if keep is not None:
        attrs['keepdims'] = keep
    if n is None:
        pos = list(range(len(shape)))
    else:
        raw, pos = pick_axes(E, 'a', n, len(shape))
        if how == 'attr':
            attrs['axes'] = list(raw)
        else:
            ins.append(ten(E, 'ax', raw))
    osh, gr = groups(E, shape, pos)
    if keep == 0:
        osh = tuple(d for i, d in enumerate(osh) if i not in pos)
    want = []
    for g in gr:
        v = [el[i] for i in g]
        if op == 'ReduceSum':
            w = sum_(v)
        elif op == 'ReduceMean':
            w = sum_(v) / len(v)
        elif op == 'ReduceProd':
            w = prod(v)
        elif op == 'ReduceMax':
            w = E.max(*v) if len(v) > 1 else v[0]
        elif op == 'ReduceMin':
            w = E.min(*v) if len(v) > 1 else v[0]
        else:
            w = E.np.sqrt(sum_([a * a for a in v]))
        want.append(w)
    out = fold(E, op, attrs, ins)[0]
    if fl and np.dtype(dt).kind == 'i':          # whole numbers: the type, and a mean within one of the exact one
        E.check(dtype_is(out, dt) and np.dtype(out.get_numpy().dtype) == np.dtype(dt), f'{op}: element type')
        E.check(E.same(E.ishape(out.get_numpy()), list(osh)), f'{op}: shape')
        if op == 'ReduceMean':
            for g, w in zip(E.elems(out.get_numpy()), want):
                E.check(E.all(g - w < 1, w - g < 1), f'{op}: value')
        return
    check_arr(E, out, want, osh, dt, op, not fl, obs=op != 'ReduceL2')


def sum_(v):
    r = v[0]
    for a in v[1:]:
        r = r + a
    return r


def h_argmax(E, shape, axis, keep, last=None):
    x, el, ids = data(E, shape)
    a = 0 if axis is None else axis % len(shape)
    attrs = {} if axis is None else {'axis': axis}
    if last is not None:
        attrs['select_last_index'] = last
    if keep is not None:
        attrs['keepdims'] = keep
    osh, gr = groups(E, shape, [a])
    if keep == 0:
        osh = tuple(d for i, d in enumerate(osh) if i != a)
    out = fold(E, 'ArgMax', attrs, [E.t('x', value=x)])[0]
    want = []
    for g in gr:
        best, bi = el[g[0]], 0
        for k in range(1, len(g)):
            c = el[g[k]] >= best if last else el[g[k]] > best
            best, bi = E.ite(c, el[g[k]], best), E.ite(c, k, bi)
        want.append(bi)
    check_arr(E, out, want, osh, I64, 'ArgMax', True)


def h_onehot(E, shape, depth, axis):
    n = int(np.prod(shape))
    idx = [E.int(f'i{k}', -depth - 1, depth) for k in range(n)]   # out-of-range indices give an all-off row
    if not shape:
        arr = E.array(idx[0], I64)
    else:
        arr = E.array(np.array(idx, dtype=object).reshape(shape).tolist(), I64)
    vals = E.real_array('v', (2,), -5, 5)
    off, on = E.elems(vals)
    r = len(shape)
    a = r if axis is None else axis % (r + 1)
    out = fold(E, 'OneHot', {} if axis is None else {'axis': axis},
               [E.t('i', value=arr), E.t('d', value=E.array(depth, I64)), E.t('v', value=vals)])[0]
    osh = tuple(shape[:a]) + (depth,) + tuple(shape[a:])
    want = []
    for p in np.ndindex(*osh):
        q = p[:a] + p[a + 1:]
        j = idx[int(np.ravel_multi_index(q, shape)) if shape else 0]
        want.append(E.ite(E.any(j == p[a], j == p[a] - depth), on, off))
    check_arr(E, out, want, osh, F32, 'OneHot', False)


def h_cumsum(E, shape, axis, dt=I64, excl=None, rev=None):
    x, el, ids = data(E, shape, dt)
    attrs = {} if excl is None else {'exclusive': excl}
    if rev is not None:
        attrs['reverse'] = rev
    out = fold(E, 'CumSum', attrs, [E.t('x', value=x), E.t('a', value=E.array(axis, np.int32))])[0]
    want = []
    for p in np.ndindex(*shape):
        a = axis % len(shape)
        over = range(p[a] + bool(excl), shape[a]) if rev else range(p[a] + 1 - bool(excl))
        want.append(sum_([el[int(ids[p[:a] + (k,) + p[a + 1:]])] for k in over]) if len(over) else 0)
    check_arr(E, out, want, shape, dt, 'CumSum', np.dtype(dt).kind != 'f')
    E.check(all(u == v for u, v in zip(E.elems(x), el)), 'CumSum: the input is modified')


def h_shape(E, r):
    """Shape with start and end: the extents in between, bounds clamped, negative ones counted from the end"""
    x = E.ints('x', r, 0, 100000)
    s = E.choice('start', [None] + list(range(-r - 2, r + 3)))
    e = E.choice('end', [None] + list(range(-r - 2, r + 3)))
    attrs = {}
    if s is not None:
        attrs['start'] = s
    if e is not None:
        attrs['end'] = e
    want = list(x)[slice(s, e)]
    X = E.t('x', x, np.float16)
    out = fold(E, 'Shape', attrs, [X])[0]
    check_arr(E, out, want, (len(want),), I64, 'Shape', True)
    o = E.t('o', [])
    E.mknode('Shape', attrs, 1, 1).shape_infer([X], [o])
    E.check(E.same(o.get_shape(), [len(want)]), 'Shape: reported shape')
    E.check(np.dtype(o.dtype) == np.dtype(I64), 'Shape: reported element type')


def h_constant(E, key):
    """a Constant given as a number, a list or a text has the specified shape and element type"""
    n = E.choice('n', [0, 1, 3]) if key.endswith('s') else 1
    if 'string' in key:
        v = [E.choice(f's{i}', [b'', b'ab']) for i in range(n)]
    else:
        v = [E.int(f'v{i}', -2 ** 63, 2 ** 63 - 1) if 'int' in key else E.real(f'v{i}', -100, 100) for i in range(n)]
    dt = I64 if 'int' in key else F32
    nd = E.mknode('Constant', {key: v if key.endswith('s') else v[0]}, 0, 1)
    out, o = E.t('o0', []), E.t('o1', [])
    shape = (n,) if key.endswith('s') else ()
    nd.value_infer([], [out])
    nd.shape_infer([], [o])
    E.check(E.same(o.get_shape(), list(shape)), 'Constant: reported shape')
    if 'string' in key:
        got = out.get_numpy()
        E.check(tuple(got.shape) == shape and [g.decode() if isinstance(g, bytes) else g for g in E.elems(got)] == [g.decode() for g in v], 'Constant: text')
        return
    E.check(np.dtype(o.dtype) == np.dtype(dt), 'Constant: reported element type')
    check_arr(E, out, v, shape, dt, 'Constant', dt is I64)


def h_nonzero(E, shape):
    x = mk(E, 'x', shape, I64, -2, 2)
    el = E.elems(x)
    nz = [bool(E.no(v == 0)) for v in el]          # decides (forks) which elements are zero
    E.assume(any(nz))
    out = fold(E, 'NonZero', {}, [E.t('x', value=x)])[0]
    w = np.array(np.nonzero(np.array(nz).reshape(shape)), dtype=I64)
    check_arr(E, out, w.reshape(-1).tolist(), w.shape, I64, 'NonZero', True)


def h_compress(E, shape, axis):
    x, el, ids = data(E, shape)
    n = ids.size if axis is None else shape[axis]
    c = [E.choice(f'c{i}', [False, True]) for i in range(n)]
    out = fold(E, 'Compress', {} if axis is None else {'axis': axis}, [E.t('x', value=x), E.t('c', value=E.array(np.array(c)))])[0]
    moved(E, out, el, np.compress(c, ids, axis), I64, 'Compress')


def h_matmul(E, sa, sb):
    a, ea, ia = data(E, sa, F32, 'a')
    b, eb, ib = data(E, sb, F32, 'b')
    out = fold(E, 'MatMul', {}, [E.t('A', value=a), E.t('B', value=b)])[0]
    A = ia if len(sa) > 1 else ia[None, :]
    B = ib if len(sb) > 1 else ib[:, None]
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    want, osh = [], bs + (A.shape[-2], B.shape[-1])
    for p in np.ndindex(*osh):
        want.append(sum_([ea[int(A[p[:-2] + (p[-2], k)])] * eb[int(B[p[:-2] + (k, p[-1])])] for k in range(A.shape[-1])]))
    osh = bs + ((A.shape[-2],) if len(sa) > 1 else ()) + ((B.shape[-1],) if len(sb) > 1 else ())
    check_arr(E, out, want, osh, F32, 'MatMul', False)


def h_matmulinteger(E, sa, sb, zero):
    """int32 product of 8-bit operands, less their zero points (one number, or one per row of A / column of B)"""
    ta, tb = E.choice('types', [(np.uint8, np.int8), (np.int8, np.int8), (np.uint8, np.uint8)])
    a, b = mk(E, 'a', sa, ta, -100, 100), mk(E, 'b', sb, tb, -100, 100)
    ea, eb = E.elems(a), E.elems(b)
    ia, ib = (np.arange(int(np.prod(s))).reshape(s) for s in (sa, sb))
    ins = [E.t('A', value=a), E.t('B', value=b)]
    za, zb = [0] * (sa[-2] if len(sa) > 1 else 1), [0] * (sb[-1] if len(sb) > 1 else 1)
    if 'a' in zero:
        n = len(za) if 'row' in zero else 1
        z = mk(E, 'za', (n,) if 'vec' in zero or 'row' in zero else (), ta, -9, 9)
        za = E.elems(z) * (len(za) // n)
        ins.append(E.t('ZA', value=z))
    elif 'b' in zero:
        ins.append(E.t('', []))
    if 'b' in zero:
        n = len(zb) if 'row' in zero else 1
        z = mk(E, 'zb', (n,) if 'vec' in zero or 'row' in zero else (), tb, -9, 9)
        zb = E.elems(z) * (len(zb) // n)
        ins.append(E.t('ZB', value=z))
    out = fold(E, 'MatMulInteger', {}, ins)[0]
    A = ia if len(sa) > 1 else ia[None, :]
    B = ib if len(sb) > 1 else ib[:, None]
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A, B = np.broadcast_to(A, bs + A.shape[-2:]), np.broadcast_to(B, bs + B.shape[-2:])
    want, osh = [], bs + (A.shape[-2], B.shape[-1])
    for p in np.ndindex(*osh):
        want.append(sum_([(ea[int(A[p[:-2] + (p[-2], k)])] - za[p[-2]]) * (eb[int(B[p[:-2] + (k, p[-1])])] - zb[p[-1]]) for k in range(A.shape[-1])]))
    osh = bs + ((A.shape[-2],) if len(sa) > 1 else ()) + ((B.shape[-1],) if len(sb) > 1 else ())
    check_arr(E, out, want, osh, np.int32, 'MatMulInteger', True)


def h_gemm(E, ta, tb, cshape, coef):
    m, k, n = 2, 2, 1
    a, ea, ia = data(E, (k, m) if ta else (m, k), F32, 'a')
    b, eb, ib = data(E, (n, k) if tb else (k, n), F32, 'b')
    attrs = {'transA': ta, 'transB': tb}
    al, be = 1, 1
    if coef:
        al, be = E.choice('al', [0.5, 2.0]), E.choice('be', [0.0, 0.25])
        attrs.update(alpha=al, beta=be)
    ins = [E.t('A', value=a), E.t('B', value=b)]
    ec, ic = None, None
    if cshape is not None:
        c, ec, ic = data(E, cshape, F32, 'c')
        ic = np.broadcast_to(ic, (m, n))
        ins.append(E.t('C', value=c))
    A, B = (ia.T if ta else ia), (ib.T if tb else ib)
    want = []
    for i in range(m):
        for j in range(n):
            w = sum_([ea[int(A[i, q])] * eb[int(B[q, j])] for q in range(k)]) * al
            if ec is not None:
                w = w + ec[int(ic[i, j])] * be
            want.append(w)
    check_arr(E, fold(E, 'Gemm', attrs, ins)[0], want, (m, n), F32, 'Gemm', False)


def obligations(tier):
    th = tier == 'thorough'
    obs = []

    def add(name, fn, w=1, poly=False, **cfg):
        obs.append(Ob(name, fn, cfg, poly=poly, weight=w))
    for how in ('1', '1noaxes', '3', '4'):
        add(f'Slice{how}-1', h_slice, 2, shape=(3,), naxes=1, how=how, steps=[1])
        add(f'Slice{how}-2', h_slice, 4, shape=(2, 3), naxes=1, how=how, steps=[1])
        add(f'Slice{how}-22', h_slice, 9, shape=(2, 3) if th else (1, 2), naxes=2, how=how, steps=[1], full=th)
    add('Slice5-1', h_slice, 4, shape=(4,), naxes=1, how='5', steps=[1, 2, 3, -1, -2])
    add('Slice5-2', h_slice, 6, shape=(2, 3), naxes=1, how='5', steps=[1, 2, -1])
    add('Slice5-3', h_slice, 6, shape=(1, 1, 2, 1, 1, 2), naxes=1, how='5', steps=[-1])
    for shape in ((3,), (2, 3), (2, 2, 2)):
        for q in ((), (2,), (1, 2)):
            for ax in [None] + list(range(-len(shape), len(shape))):
                add(f'Gather{shape}{q}[{ax}]', h_gather, shape=shape, q=q, axis=ax)
    for shape, ish in (((2, 2), (2, 1)), ((3,), (2,)), ((2, 3), (1, 2))):
        for ax in [None] + list(range(-len(shape), len(shape))):
            add(f'GatherElements{shape}{ish}[{ax}]', h_gatherel, 2, shape=shape, ishape=ish, axis=ax)
    for shape, ish, b in (((2, 2), (2, 2), 0), ((2, 3), (2, 1), 0), ((2, 2, 2), (2, 1), 1), ((2, 2, 2), (2, 2), 1), ((2, 1, 3), (2, 1, 1), 2), ((3,), (1,), 0)):
        add(f'GatherND{shape}{ish}{b}', h_gathernd, 2, shape=shape, ishape=ish, b=b)
    for red in (None, b'none', b'add', b'mul', b'max', b'min'):
        for shape, ish in (((3,), (2, 1)), ((2, 2), (1, 2)), ((2, 2), (2, 1))):
            if red == b'none' and ish[0] > 1:
                continue
            add(f'ScatterND{shape}{ish}{red}', h_scatternd, 2, poly=red == b'mul', shape=shape, ishape=ish, red=red)
    for shapes, ax in ((((2,), (1,)), 0), (((2, 1), (2, 2)), 1), (((2, 1), (2, 2)), -1), (((1, 2), (2, 2), (1, 2)), 0), (((1, 2), (1, 2)), -2), (((0,), (2,)), 0)):
        add(f'Concat{shapes}{ax}', h_concat, shapes=shapes, axis=ax)
    for shape in ((4,), (3,), (2, 3), (5,)):
        for ax in [None] + list(range(-len(shape), len(shape))):
            d = shape[0 if ax is None else ax]
            for n in (1, 2, 3):
                for how in ('even', 'attr', 'input'):
                    if how == 'even' and (d < n or -(-d // n) * (n - 1) > d):
                        continue
                    if (how == 'input' and ax is None):
                        continue
                    add(f'Split{shape}{ax}-{n}-{how}', h_split, shape=shape, axis=ax, n=n, how=how)
    for shape in ((3,), (2, 3), (1, 2, 3), (1, 2, 1, 2)):
        add(f'Transpose{shape}d', h_perm, shape=shape, default=True)
        add(f'Transpose{shape}', h_perm, len(shape), shape=shape, default=False)
        for ax in [None] + list(range(-len(shape), len(shape) + 1)):
            add(f'Flatten{shape}[{ax}]', h_flatten, shape=shape, axis=ax)
    for i, (s, t, w) in enumerate([((2, 3), [3, 2], (3, 2)), ((2, 3), [-1], (6,)), ((2, 3), [0, -1], (2, 3)), ((2, 2, 2), [0, -1], (2, 4)),
                                   ((2, 3), [1, 0, -1], (1, 3, 2)), ((4,), [2, 2], (2, 2)), ((1,), [], ()), ((2, 3), [-1, 1, 3], (2, 1, 3))]):
        add(f'Reshape{i}', h_reshape, shape=s, tgt=t, want=w)
    for s in ((1, 2), (1, 2, 1), (1, 1, 2, 1), (2,), (1,)):
        add(f'Squeeze{s}all', h_squeeze, shape=s, n=None, how='attr')
        for n in (1, 2, 3):
            if n <= sum(1 for d in s if d == 1):
                for how in ('attr', 'input'):
                    add(f'Squeeze{s}{n}{how}', h_squeeze, 2, shape=s, n=n, how=how)
    for s in ((), (2,), (2, 3)):
        for n in (1, 2) + ((3,) if th else ()):
            for how in ('attr', 'input'):
                add(f'Unsqueeze{s}{n}{how}', h_unsqueeze, 2, shape=s, n=n, how=how)
    for s, t in (((1,), [3]), ((2, 1), [2, 2]), ((2, 1), [3]), ((2,), [2, 1]), ((2,), [3, 2]), ((1, 2), [2, 1, 1]), ((3,), [1])):
        add(f'Expand{s}{t}', h_expand, shape=s, tgt=t)
    for s in ((2,), (1, 2), (2, 2)):
        add(f'Tile{s}', h_tile, shape=s)
    for s in ((2,), (2, 2)):
        for how in ('attr', 'input', 'value'):
            for mode in (None, b'constant', b'edge', b'reflect'):
                if how == 'value' and mode in (b'edge', b'reflect'):
                    continue
                add(f'Pad{s}{how}{mode}', h_pad, 3, shape=s, how=how, mode=mode)
                if mode in (None, b'constant', b'edge') and len(s) < 3:
                    add(f'Pad{s}{how}{mode}-neg', h_pad, 3, shape=s, how=how, mode=mode, neg=True)
    for s in ((3, 3), (2, 3), (2, 2, 2)):
        for up in (None, 0, 1):
            add(f'Trilu{s}{up}', h_trilu, shape=s, upper=up)
    for n in (1, 2):
        for dt in (None, I64, F32):
            add(f'ConstantOfShape{n}{dt}', h_cos, shape=n, dt=dt)
    for r in range(5):
        add(f'Shape{r}', h_shape, r=r)
    for key in ('value_int', 'value_ints', 'value_float', 'value_floats', 'value_string', 'value_strings'):
        add(f'Constant-{key}', h_constant, key=key)
    add('Range+', h_range, 3, sgn=1)
    add('Range-', h_range, 3, sgn=-1)
    for op in ('ReduceSum', 'ReduceMean', 'ReduceProd', 'ReduceMax', 'ReduceMin', 'ReduceL2'):
        for s in ((3,), (2, 2), (2, 1, 2)):
            for n in (None, 1, 2):
                for how in ('attr', 'input'):
                    if n is None and how == 'input' or (n or 0) > len(s):
                        continue
                    for keep in (None, 0):
                        add(f'{op}{s}{n}{how}{keep}', h_reduce, 2, poly=op in ('ReduceProd', 'ReduceL2'), op=op, shape=s, n=n, how=how, keep=keep)
                        if keep is None and how == 'attr' and n != 2 and op != 'ReduceL2':
                            for dt in (np.int32, np.int16) if op in ('ReduceMax', 'ReduceMin') else (np.int32,):
                                add(f'{op}{s}{n}{how}{np.dtype(dt)}', h_reduce, 2, poly=op == 'ReduceProd', op=op, shape=s, n=n, how=how, keep=keep, dt=dt)
                        if keep is None and how == 'attr' and n != 2 and op in ('ReduceSum', 'ReduceProd', 'ReduceMax', 'ReduceMin'):
                            add(f'{op}{s}{n}{how}f32', h_reduce, 2, poly=op == 'ReduceProd', op=op, shape=s, n=n, how=how, keep=keep, dt=F32)
    for s in ((3,), (2, 2), (2, 1, 3)):
        for ax in [None] + list(range(-len(s), len(s))):
            for keep in (None, 0):
                add(f'ArgMax{s}{ax}{keep}', h_argmax, shape=s, axis=ax, keep=keep)
            for last in (0, 1):
                add(f'ArgMax{s}{ax}last{last}', h_argmax, shape=s, axis=ax, keep=1, last=last)
            if ax is not None:
                add(f'CumSum{s}{ax}', h_cumsum, shape=s, axis=ax)
                for dt, ex, rv in ((np.int32, None, 1), (F32, 1, None), (I64, 1, 1), (np.int32, 0, 0), (np.int16, None, None)):
                    add(f'CumSum{s}{ax}{np.dtype(dt)}{ex}{rv}', h_cumsum, shape=s, axis=ax, dt=dt, excl=ex, rev=rv)
    for s, d in (((2,), 3), ((), 2), ((2, 1), 2)):
        for ax in [None] + list(range(-len(s) - 1, len(s) + 1)):
            add(f'OneHot{s}{d}{ax}', h_onehot, shape=s, depth=d, axis=ax)
    for s in ((3,), (2, 2)):
        add(f'NonZero{s}', h_nonzero, 2, shape=s)
    for s, ax in (((3,), None), ((3,), 0), ((2, 2), 1), ((2, 2), None)):
        add(f'Compress{s}{ax}', h_compress, shape=s, axis=ax)
    for sa, sb in (((2, 2), (2, 2)), ((1, 3), (3, 1)), ((2, 1, 2), (2, 1)), ((1, 2), (2, 2, 1)), ((2, 1, 1, 2), (2, 2, 1)), ((2,), (2,)), ((2,), (2, 2)), ((2, 2), (2,))):
        add(f'MatMul{sa}{sb}', h_matmul, poly=True, sa=sa, sb=sb)
    for sa, sb in (((2, 2), (2, 2)), ((2, 3), (3, 1)), ((2, 2, 1), (1, 2)), ((2,), (2, 2)), ((2, 2), (2,))):
        for zero in ('', 'a', 'b', 'ab', 'ab vec') + (('a row', 'b row', 'ab row') if min(len(sa), len(sb)) > 1 else ()):
            add(f'MatMulInteger{sa}{sb}{zero}', h_matmulinteger, poly=True, sa=sa, sb=sb, zero=zero)
    for ta in (0, 1):
        for tb in (0, 1):
            for cs in (None, (1,), (2, 1), ()):
                for coef in (False, True):
                    add(f'Gemm{ta}{tb}{cs}{coef}', h_gemm, poly=True, ta=ta, tb=tb, cshape=cs, coef=coef)
    return obs


BOUNDS = {'all': 'arrays of up to 8 independent symbolic elements (integers or reals in [-1000,1000]); every axis list, permutation, split, tile and pad '
                 'amount within the small extents; slice bounds at and beyond both ends with steps 1,2,3,-1,-2; symbolic Gather and OneHot indices'}
OUTSIDE = 'larger arrays (the operators treat positions uniformly); floating-point rounding'
ASSUMPTIONS = ['floating-point arithmetic idealised as reals; sqrt uninterpreted']
