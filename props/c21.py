"""C21 - weight quantisation keeps every value within half a step; sparsity figures are counted right."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import decode

f32, f16, f64, i64, i8, u8, i32 = np.float32, np.float16, np.float64, np.int64, np.int8, np.uint8, np.int32


def groups(shape, block):
    """list of (index in the scale array, element indices) sharing one scale"""
    r, c = shape
    if block == 0:
        return [((), [(i, j) for i in range(r) for j in range(c)])]
    if block == -1:
        return [((i,), [(i, j) for j in range(c)]) for i in range(r)]
    return [((i, k // block), [(i, j) for j in range(k, min(k + block, c))]) for i in range(r) for k in range(0, c, block)]


def grid(E, a, shape):
    e = E.elems(a)
    return {(i, j): e[i * shape[1] + j] for i in range(shape[0]) for j in range(shape[1])}


def at(E, a, idx, block, shape):
    e = E.elems(a)
    if idx == ():
        return e[0]
    if len(idx) == 1:
        return e[idx[0]]
    return e[idx[0] * (-(-shape[1] // block)) + idx[1]]


def sample(E, shape, zero, split):
    """values with a fixed order of magnitude per group is not assumed: any reals, optionally an all-zero first row"""
    v = {}
    for i in range(shape[0]):
        for j in range(shape[1]):
            v[i, j] = 0.0 if zero and i == 0 else E.real(f'f{i}{j}', -8, 8)
    return v


def accurate(E, F, Q, S, Z, shape, block, typ, bits, label, srel=0, eps=0):
    for idx, els in groups(shape, block):
        s = at(E, S, idx, block, shape)
        z = at(E, Z, idx, block, shape) if Z is not None else 0
        lo, hi = F[els[0]], F[els[0]]
        for e in els[1:]:
            lo, hi = E.min(lo, F[e]), E.max(hi, F[e])
        tol = eps if E.sym else 1e-4      # eps: fixed values are floats
        E.check(s > 0, f'{label}: the step is positive')
        if typ == 'sym':
            n = 2 ** (bits - 1) - 1
            a = E.max(hi, -lo)
            E.check(E.any(a == 0, E.close(s * n, a, eps if E.sym else 1e-3 * 8)), f'{label}: the step is the largest magnitude over {n}')
            E.check(z == 0, f'{label}: zero point')
            qlo, qhi = -n, n
        else:
            n = 2 ** bits - 1
            a = E.max(hi, 0) - E.min(lo, 0)
            E.check(E.any(a == 0, E.close(s * n, a, eps if E.sym else 1e-3 * 16)), f'{label}: the step is the range over {n}')
            E.check(E.all(z >= 0, z <= n), f'{label}: the zero point is a code')
            qlo, qhi = 0, n
        for e in els:
            E.check(E.all(Q[e] >= qlo, Q[e] <= qhi), f'{label}: codes are {qlo}..{qhi}')
            err = (Q[e] - z) * s - F[e]
            lim = s / 2 + tol + (0 if E.sym else srel * n * s)
            E.check(E.all(err <= lim, -err <= lim), f'{label}: a value comes back within half a step')


def spots(E, shape, n):
    """a larger weight of fixed values, n of which, wherever they are, are any value"""
    v = {(i, j): ((i * 3 + j * 5) % 7 - 3) / 4 for i in range(shape[0]) for j in range(shape[1])}
    if E.choice('sign', [False, True]):
        v = {k: -x for k, x in v.items()}
    first = E.choice('p0', sorted(v))
    v[first] = E.real('f0', -8, 8)
    if n > 1:   # any other one of its row
        v[E.choice('p1', [k for k in sorted(v) if k[0] == first[0] and k > first] or [(first[0], 0)])] = E.real('f1', -8, 8)
    return v


def h_quant(E, shape, block, typ, bits, zero=False, spot=0):
    F = spots(E, shape, spot) if spot else sample(E, shape, zero, None)
    a = E.array([[F[i, j] for j in range(shape[1])] for i in range(shape[0])], f32)
    if not E.sym:       # what the array holds
        F = {k: float(a[k]) for k in F}
    r = E.call(E.m('quantization').quantize, a, block, typ, bits)
    if not r.ok:
        E.fail(f'quantize raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    Q, S, Z = r.val
    want = [] if block == 0 else [shape[0]] if block == -1 else [shape[0], -(-shape[1] // block)]
    E.check(list(Q.shape) == list(shape) and list(S.shape) == want and list(Z.shape) == want, 'one code per value, one step and zero point per tensor, row or block')
    accurate(E, F, grid(E, Q, shape), S, Z, shape, block, typ, bits, 'quantize', eps=1e-6 if spot else 0)


def h_pack(E, shape, sign):
    """two codes per byte, low nibble first, two's complement"""
    r, c = shape
    q = {(i, j): E.int(f'q{i}{j}', -8 if sign else 0, 7 if sign else 15) for i in range(r) for j in range(c)}
    res = E.call(E.m('quantization').pack_4bits, E.array([[q[i, j] for j in range(c)] for i in range(r)], i32))
    if not res.ok:
        E.fail(f'pack_4bits raises {type(res.exc).__name__}: {str(res.exc)[:60]}')
    P = res.val
    w = (c + 1) // 2
    E.check(list(P.shape) == [r, w] and np.dtype(P.dtype) == np.dtype(u8), 'half the columns, in bytes')
    if list(P.shape) != [r, w]:
        return
    e = E.elems(P)
    for (i, j), v in q.items():
        b = e[i * w + j // 2]
        nib = b % 16 if j % 2 == 0 else b // 16
        E.check(nib == E.ite(v < 0, v + 16, v), f'code {i},{j} is a nibble of the byte')


def unpack(E, P, shape, sign):
    w = (shape[1] + 1) // 2
    e = E.elems(P)
    q = {}
    for i in range(shape[0]):
        for j in range(shape[1]):
            b = e[i * w + j // 2]
            n = b % 16 if j % 2 == 0 else b // 16
            q[i, j] = E.ite(n >= 8, n - 16, n) if sign else n
    return q


def h_graph(E, op, block, typ, bits, shape, consumers, dt=f32, how='loop'):
    """graph_quantize over all weights of a graph"""
    r, c = shape
    F = {(i, j): E.real(f'f{i}{j}', -8, 8) for i in range(r) for j in range(c)}
    E.assume(E.any(*[E.any(v > 1, v < -1) for k, v in F.items() if k[0] == 0]))
    for i in range(r):
        E.assume(E.any(*[E.any(v > 1, v < -1) for k, v in F.items() if k[0] == i]))
    a = E.array([[F[i, j] for j in range(c)] for i in range(r)], dt)
    if not E.sym:
        F = {k: float(a[k]) for k in F}
    n = E.int('n', 1, 64)
    tr = op != 'Gemm'
    nodes, outs = [], []
    for k in range(consumers):
        if op.startswith('Gemm'):
            nodes.append(out('Gemm', f'm{k}', ['x', 'w', 'b'], [f'y{k}'], transB=1 if op == 'Gemm' else 0))
        else:
            nodes.append(out('MatMul', f'm{k}', ['x', 'w'], [f'y{k}']))
        outs.append(f'y{k}')
    nodes += [out('MatMul', 'm9', ['x2', 'k_ot_q.w2'], ['z']), out('Add', 'ad', ['z', 'b'], ['z2'])]
    kx = r if op != 'Gemm' else c
    bias = E.array(np.zeros(c if op != 'Gemm' else r, f32), f32)
    w2 = E.array([[3.0, -1.5], [1.0, 0.5]], f32)
    iv = E.array([[1, 2]], i64)
    g = mkgraph(E, nodes + [out('Gather', 'ga', ['z2', 'iv'], ['q'])], [('x', [n, kx], f32), ('x2', [n, 2], f32)], [(o, None, f32) for o in outs] + [('q', None, f32)],
                [('w', a), ('k_ot_q.w2', w2), ('b', bias), ('iv', iv)])
    before = {k: (v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items()}
    gq = E.m('quantization').graph_quantize

    def run():
        if how == 'loop':
            for key in g.initials:
                gq(g, key, block=block, type=typ, bits=bits)
        else:
            gq(g, 'w', block, typ, bits)
            gq(g, 'x', block, typ, bits)        # an activation: nothing happens
    R = E.call(run)
    if not R.ok:
        E.fail(f'graph_quantize raises {type(R.exc).__name__}: {str(R.exc)[:60]}')
    names = ['_ot_q', '_ot_s'] + (['_ot_z'] if typ == 'asym' else [])
    done = ['w'] + (['k_ot_q.w2'] if how == 'loop' else [])
    want = {k: (o, [t for i in ins for t in ([i + s for s in names] if i in done else [i])], res) for k, (o, ins, res) in before.items()}
    E.check({k: (v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items()} == want, 'every reader of the weight reads codes, step (and zero point) in its place')
    E.check(sorted(g.initials) == sorted([t + s for t in done for s in names] + ['b', 'iv'] + (['k_ot_q.w2'] if how != 'loop' else [])), 'the weights of the graph')
    for t in done:
        E.check(t not in g.tensormap and t not in g.consumedby, f'{t} itself is gone')
        for s in names:
            E.check(sorted(g.consumedby.get(t + s, [])) == sorted(k for k, v in want.items() if t + s in v[1]), f'readers of {t}{s}')
    for k, nd in g.nodemap.items():
        quantised = any(t in done for t in before[k][1])
        E.check([nd.attr.get(a) for a in ('OTQ_Block', 'OTQ_Type', 'OTQ_Bits')] == ([block, typ, bits] if quantised else [None] * 3), 'exactly the readers of the weight tell how it was quantised')
    if tr:
        F, shape = {(j, i): v for (i, j), v in F.items()}, [c, r]
    st = {}
    for s in names:
        if f'w{s}' not in g.tensormap:
            return
        st[s] = g.tensormap[f'w{s}']
        dt_, dims, vals = decode(E, st[s].make_tensor_proto())
        E.check(dims == list(st[s].numpy.shape), f'w{s} can be saved')
    codes, step = st['_ot_q'].numpy, st['_ot_s'].numpy
    if bits == 4:
        E.check(np.dtype(codes.dtype) == np.dtype(u8) and list(codes.shape) == [shape[0], (shape[1] + 1) // 2] and np.dtype(step.dtype) == np.dtype(f16), 'packed 4-bit codes with half-precision steps')
        if list(codes.shape) != [shape[0], (shape[1] + 1) // 2]:
            return
        Q = unpack(E, codes, shape, typ == 'sym')
    else:
        E.check(np.dtype(codes.dtype) == np.dtype(u8 if typ == 'asym' else i8) and list(codes.shape) == list(shape), '8-bit codes')
        Q = grid(E, codes, shape)
    Z = st['_ot_z'].numpy if typ == 'asym' else None
    accurate(E, F, Q, step, Z, shape, block, typ, bits, f'graph_quantize', srel=1e-3)


def h_mixed(E, readers, typ, bits):
    """readers that take the weight as it is and transposed cannot share one array of codes: the weight stays"""
    n = E.int('n', 1, 64)
    v = [E.real(f'f{k}', -8, 8) for k in range(4)]
    a = E.array([v[:2], v[2:]], f32)
    nodes = [out('MatMul', f'm{k}', ['x', 'w'], [f'y{k}']) if r == 'M' else out('Gemm', f'm{k}', ['x', 'w'], [f'y{k}'], transB=int(r == 'T')) for k, r in enumerate(readers)]
    g = mkgraph(E, nodes, [('x', [n, 2], f32)], [(f'y{k}', None, f32) for k in range(len(readers))], [('w', a)])
    r = E.call(E.m('quantization').graph_quantize, g, 'w', -1, typ, bits)
    E.check(r.ok and list(g.initials) == ['w'] and 'w' in g.tensormap and all(list(nd.input) == ['x', 'w'] and 'OTQ_Bits' not in nd.attr for nd in g.nodemap.values()), 'nothing changes')
    E.check(E.all(*[E.eq(p, q) for p, q in zip(E.elems(g.tensormap['w'].numpy), v)]), 'the weight keeps its values')


def h_skip(E, why):
    """what is not a 2-D float weight stays as it is"""
    n = E.int('n', 1, 64)
    a = {'rank1': E.array([1.0, 2.0], f32), 'rank3': E.array(np.ones((1, 2, 2), f32), f32), 'int': E.array([[1, 2], [3, 4]], i64), 'activation': E.array([[1.0, 2.0], [3.0, 4.0]], f32)}[why]
    g = mkgraph(E, [out('MatMul', 'm', ['x', 'w'], ['y'])], [('x', [n, 2], f32)], [('y', None, f32)], [('w', a)])
    r = E.call(E.m('quantization').graph_quantize, g, 'x' if why == 'activation' else 'w')
    E.check(r.ok and list(g.nodemap['m'].input) == ['x', 'w'] and list(g.initials) == ['w'] and 'w' in g.tensormap and 'OTQ_Bits' not in g.nodemap['m'].attr, 'nothing changes')


# ---- sparsity
def zero_of(dt):
    return 128 if np.dtype(dt) == np.dtype(u8) else 0


def block_ratio(E, z, shape, bs):
    """fraction of all-zero blocks"""
    b0, b1 = bs
    rest = shape[2:]
    import itertools
    cnt, tot = 0, 0
    for i in range(0, shape[0], b0):
        for j in range(0, shape[1], b1):
            for k in itertools.product(*[range(x) for x in rest]):
                cnt = cnt + E.ite(E.all(*[z[(i + a, j + b) + k] for a in range(b0) for b in range(b1)]), 1, 0)
                tot += 1
    return cnt, tot


def h_sparse(E, shape, dt, fixed=()):
    import itertools
    zz = zero_of(dt)
    idx = list(itertools.product(*[range(s) for s in shape]))
    v, z = [], {}
    for n, i in enumerate(idx):
        if n in fixed:
            v.append(zz)
            z[i] = True
        else:
            x = E.int(f'v{n}', zz, zz + 1)
            v.append(x)
            z[i] = x == zz
    flat = np.array([0])

    def nest(vals, sh):
        if len(sh) == 1:
            return list(vals)
        k = len(vals) // sh[0]
        return [nest(vals[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]
    T = E.m('tensor')
    t = T.create_initial_Tensor('w', E.array(nest(v, shape), dt))
    r = E.call(t.sparsity_search, 1, 0.4)
    if not r.ok:
        E.fail(f'sparsity_search raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    s = t.sparsity
    nz = sum(E.ite(b, 1, 0) for b in z.values())
    N = len(idx)
    E.check(E.close(s['ratio'] * N, nz, 0 if E.sym else 1e-6), 'ratio is the fraction of zeros')
    b0, b1 = s['blocksize']
    E.check(shape[0] % b0 == 0 and shape[1] % b1 == 0, 'the block divides the weight')
    sparse = nz * 10 > 4 * N
    if (b0, b1) == (1, 1):
        E.check(E.eq(True, E.any(E.close(s['blockratio'] * N, nz, 0 if E.sym else 1e-6), E.all(E.no(sparse), s['blockratio'] == 0))), 'single elements: the ratio of zeros')
    else:
        c, tot = block_ratio(E, z, shape, (b0, b1))
        E.check(sparse, 'blocks are only searched in sparse weights')
        E.check(E.close(s['blockratio'] * tot, c, 0 if E.sym else 1e-6), 'blockratio is the fraction of blocks that are zero')
        E.check(c * N * 10 > (nz * 10 - N) * tot - (0 if E.sym else 1e-6), 'the blocks keep the ratio up to 10%')


def h_dense(E, how):
    n = E.int('n', 1, 64)
    T = E.m('tensor')
    if how == 'small':
        t = T.create_initial_Tensor('w', E.array([[0.0] * 64] * 64, f32))
    elif how == 'rank3':
        t = T.create_initial_Tensor('w', E.array([[[0.0] * 2] * 2] * 2, f32))
    else:
        t = T.Tensor('x')
        t.update_shape([n, 8])
    r = E.call(t.sparsity_search, *([] if how == 'small' else [1]))
    if not r.ok:
        E.fail(f'sparsity_search raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    E.check(t.sparsity is None if how == 'dynamic' else t.sparsity == {'blocksize': (1, 1), 'blockratio': 0, 'ratio': 0}, 'not searched')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for typ in ('sym', 'asym'):
        for bits in (8, 4):
            for shape, blocks in (([2, 2], (0, -1, 1, 2)), ([1, 3], (0, -1, 2, 4))) + ((([2, 3], (-1, 2)), ([1, 5], (2, 3))) if th else ()):
                for b in blocks:
                    obs.append(Ob(f'quantize-{typ}{bits}-{shape[0]}x{shape[1]}-b{b}', h_quant, dict(shape=shape, block=b, typ=typ, bits=bits), weight=2))
            obs.append(Ob(f'quantize-{typ}{bits}-zero', h_quant, dict(shape=[2, 2], block=-1, typ=typ, bits=bits, zero=True)))
            obs.append(Ob(f'quantize-{typ}{bits}-zerot', h_quant, dict(shape=[1, 2], block=0, typ=typ, bits=bits, zero=True)))
            obs.append(Ob(f'quantize-{typ}{bits}-zerob', h_quant, dict(shape=[1, 3], block=2, typ=typ, bits=bits, zero=True)))
            for shape, b in (([1, 6], 4), ([3, 2], -1)) + ((([2, 7], 3), ([2, 4], 0)) if th or typ == 'sym' else ()) + ((([2, 9], 4), ([2, 9], 5), ([1, 12], 8), ([3, 7], 32), ([3, 5], -1), ([3, 5], 0)) if th else ()):
                obs.append(Ob(f'quantize-{typ}{bits}-spot-{shape[0]}x{shape[1]}-b{b}', h_quant, dict(shape=shape, block=b, typ=typ, bits=bits, spot=1), weight=2))
            for k, op in enumerate(('MatMul', 'Gemm', 'GemmT')):
                for b in (0, -1, 2) if th else ((0, -1, 2)[(k + bits // 4) % 3],):
                    for cons in (1, 2, 3) if b != 2 else (1, 2):
                        obs.append(Ob(f'graph-{op}-{typ}{bits}-b{b}-{cons}', h_graph, dict(op=op, block=b, typ=typ, bits=bits, shape=[[3, 1], [1, 3] if bits == 8 else [1, 2], [2, 2]][k] if b == 2 else [[1, 2], [2, 2], [1, 2]][k], consumers=cons,
                                                                                          dt=f16 if op == 'Gemm' and cons == 2 else f32, how='one' if k == 1 else 'loop'), weight=2))
    obs += [Ob(f'pack-{"s" if s else "u"}-{a}x{b}', h_pack, dict(shape=[a, b], sign=s)) for s in (True, False) for a, b in ((1, 2), (2, 2), (1, 3), (1, 1)) + (((1, 5), (2, 4)) if th else ())]
    obs += [Ob(f'mixed-{r}', h_mixed, dict(readers=r, typ=t, bits=b)) for r, t, b in (('MT', 'sym', 8), ('TM', 'asym', 4), ('GTM', 'sym', 4), ('TTG', 'asym', 8))]
    obs += [Ob(f'skip-{w}', h_skip, dict(why=w)) for w in ('rank1', 'rank3', 'int', 'activation')]
    obs += [Ob('sparse-2x4', h_sparse, dict(shape=[2, 4], dt=f32), weight=3), Ob('sparse-4x2', h_sparse, dict(shape=[4, 2], dt=i8), weight=3), Ob('sparse-2x3', h_sparse, dict(shape=[2, 3], dt=u8)),
            Ob('sparse-4x4', h_sparse, dict(shape=[4, 4], dt=f32), weight=6), Ob('sparse-4x2x1x1', h_sparse, dict(shape=[4, 2, 1, 1], dt=f32), weight=3),
            Ob('sparse-2x4x1x2', h_sparse, dict(shape=[2, 4, 1, 2], dt=f32), weight=6), Ob('sparse-4x4x1x1', h_sparse, dict(shape=[4, 4, 1, 1], dt=f16), weight=6)]
    obs += [Ob(f'dense-{h}', h_dense, dict(how=h)) for h in ('small', 'rank3', 'dynamic')]
    return obs


BOUNDS = {'quantize-': 'every real value in -8..8 of weights of shape 2x2 and 1x3 (also 2x3 and 1x5 thorough), an all-zero row, block or tensor; 8 and 4 bits, symmetric and asymmetric, per tensor, per row and '
          'blocks of 1, 2, 3 or 4 (also blocks that do not divide the row); weights of up to 2x7 (1x6 and 3x2 asymmetric; 2x9, 1x12, 3x7 thorough), fixed but for one element, wherever it is', 'graph-': 'MatMul, Gemm, Gemm with transB; one to three readers of the weight; weights with a value beyond 1 in every row (half-precision '
          'steps are compared with a relative tolerance in replays)', 'pack-': 'every code of 1x1..2x4 matrices', 'mixed-': 'two or three readers that take the weight plain and transposed', 'skip-': 'rank 1 and 3, integer weights, activations',
          'sparse-': 'every zero pattern of 2x4, 4x2, 2x3, 4x4, 4x2x1x1, 2x4x1x2, 4x4x1x1 weights of float, int8 (0) and uint8 (128)', 'dense-': 'small, rank-3 and dynamic tensors'}
OUTSIDE = 'the rounding of float arithmetic (real arithmetic; replays run the real float code with a tolerance); 4-bit storage of tensors of rank other than 2; larger weights'
ASSUMPTIONS = ['real arithmetic for float32/float16', 'ctypes integers wrap as in C']
