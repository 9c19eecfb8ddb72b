"""C28 - the inference engine runs a model inside the windows of one planned memory pool."""
import contextlib
import numpy as np
from symex import ftorch as T
from symex.runner import Ob
from .lib import *
from .glib import *

f32, i64 = np.float32, np.int64
DTS = {'float32': T.float32, 'float16': T.float16, 'float64': T.float64, 'int64': T.int64, 'uint8': T.uint8}


def ten(E, name, shape, lo=-4, hi=4, dtype=T.float32):
    n = int(np.prod(shape)) if len(shape) else 1
    mk = E.real if dtype.kind == 'f' else E.int
    return T.make([mk(f'{name}{i}', lo, hi) for i in range(n)], shape, dtype)


def same_vals(E, got, want, label, obs=True):
    """elements of two flat lists agree"""
    E.check(len(got) == len(want), f'{label}: number of elements')
    if len(got) == len(want):
        if obs:
            E.observe(label, [None if T.isg(g) else g for g in got])
        E.check(E.all(*[(not T.isg(g)) and E.close(g, w) for g, w in zip(got, want)]), f'{label}: values')


def region(E, t, blk, off, n, label):
    """t is a dense view of the n elements at byte `off` of the block `blk`"""
    E.check(t.st is blk, f'{label}: the view shares the memory of the pool')
    E.check(E.eq(t.off, off), f'{label}: the view starts at the planned offset')
    E.check(E.eq(t.numel(), n), f'{label}: number of elements of the view')
    E.check(t.is_contiguous(), f'{label}: the view is dense')


# ---- MemoryPool
def h_get(E, dt, rank, form):
    d, k = DTS[dt], DTS[dt].itemsize
    MP = E.m('inference.memory_pool')
    o, s, rest = E.int('off', 0, 4000) * k, E.int('size', 1, 4000), E.int('rest', 0, 4000)
    o2, s2 = E.int('off2', 0, 1000), E.int('size2', 1, 1000)
    P = o + s + rest
    E.assume(o2 + s2 <= P)
    if rank is None:
        E.assume(s % k == 0)
    shape = None if rank is None else [E.int(f'd{i}', 1, 60) for i in range(rank)]
    pool = MP.MemoryPool({'z': [o2, s2], 'a': [o, s]}, P, dtype=d)
    E.check(E.eq(pool.compress_size, P) and E.eq(pool.pool.numel() * pool.pool.element_size(), P), 'size of the pool')
    n = s // k
    if shape is not None:
        n = 1
        for v in shape:
            n = n * v
    if form == 'batch':
        r = E.call(pool.get_batch, 'a', shape[0], shape[1:] if rank > 1 else None)
    elif form == 'item':
        r = E.call(pool.__getitem__, 'a')
    else:
        r = E.call(pool.get, 'a', tuple(shape) if form == 'tuple' else shape) if shape is not None else E.call(pool.get, 'a')
    E.check(E.eq(r.ok, n <= s // k) if not E.sym else (E.no(n > s // k) if r.ok else n > s // k), 'a shape is refused exactly when it does not fit the planned size')
    if r.ok:
        E.check(r.val.dtype is d, 'element type of the view')
        if shape is not None:
            E.check(E.same(list(r.val.shape), shape), 'shape of the view')
        region(E, r.val, pool.pool.st, o, n, dt)
    else:
        E.check(isinstance(r.exc, ValueError), f'refused with {type(r.exc).__name__}')


def h_validate(E, n):
    """a plan is accepted exactly when every region lies inside the pool"""
    MP = E.m('inference.memory_pool')
    P = E.int('P', -50, 5000)
    plan = {f't{i}': [E.int(f'o{i}', -50, 5000), E.int(f's{i}', -50, 5000)] for i in range(n)}
    good = E.all(P > 0, *[E.all(o >= 0, s > 0, o + s <= P) for o, s in plan.values()])
    r = E.call(MP.MemoryPool, plan, P)
    E.check(good if r.ok else E.no(good), 'a plan is accepted exactly when its regions are inside the pool')
    if not r.ok:
        E.check(isinstance(r.exc, ValueError), f'refused with {type(r.exc).__name__}')


def h_names(E):
    MP = E.m('inference.memory_pool')
    pool = MP.MemoryPool({'a': [0, 8], 'b': [8, 4]}, E.int('P', 12, 100))
    E.check('a' in pool and 'b' in pool and 'c' not in pool, 'membership')
    E.check(len(pool) == 2 and list(pool.keys()) == ['a', 'b'] and [list(v) for _, v in pool.items()] == [[0, 8], [8, 4]], 'the plan can be read back')
    for f in (pool.get, pool.__getitem__, lambda k: pool.fill_tensor(k, T.tensor([1.])), lambda k: pool.get_batch(k, 1)):
        r = E.call(f, 'c')
        E.check(not r.ok and isinstance(r.exc, KeyError), 'an unknown tensor is refused')
    E.check(pool.device == 'cpu', 'device')


def h_fill(E, order, extra, src, dev):
    """writing tensors changes exactly their elements, whatever the order, and reading gives them back"""
    MP = E.m('inference.memory_pool')
    plan = {'a': [0, 8], 'b': [8, 12], 'c': [24, 8]}
    pool = MP.MemoryPool(plan, 40)
    want = {}
    for nm in order:
        n = plan[nm][1] // 4
        k = nm + str(len(want)) + '_'
        if nm in want:
            k = nm + 'again'
        if src == 'np':
            v = E.real_array(k, [n + extra], -4, 4)
            vals = E.elems(v)
        elif src == 'int':
            v = ten(E, k, [n + extra], -9, 9, T.int64)
            vals = v.flat()
        else:
            v = ten(E, k, [1, n + extra])
            vals = v.flat()
        pool.fill_tensor(nm, v)
        want[nm] = vals[:n]
        for m, w in want.items():
            same_vals(E, pool.get(m).flat(), w, f'after writing {nm}: {m}')
    E.check(all(T.isg(pool.pool.st.read(o, 4)) for o in (20, 32, 36)), 'nothing outside the regions is written')
    if dev:
        # a view handed out earlier belongs to the old block after the move
        old = pool.get('a')
        E.check(pool.to('cpu') is pool and pool.get('a').st is old.st, 'moving to the same device moves nothing')
        E.check(pool.to('xpu') is pool and pool.device == 'xpu', 'moving the pool')
        for m, w in want.items():
            t = pool.get(m)
            E.check(t.device == 'xpu' and t.st is pool.pool.st and t.st is not old.st, 'views are of the moved block')
            same_vals(E, t.flat(), w, f'after the move: {m}')
        pool.fill_tensor('a', ten(E, 'late', [2]))
        same_vals(E, pool.get('a').flat(), [E_v for E_v in pool.get('a', [2, 1]).flat()], 'after the move: rewritten')
    E.check(pool.zero_() is pool, 'zero_ gives the pool')
    for m in plan:
        same_vals(E, pool.get(m).flat(), [0] * (plan[m][1] // 4), f'zeroed: {m}')


def h_alias(E):
    """two tensors planned at the same place share it; a smaller shape is the front of the region"""
    MP = E.m('inference.memory_pool')
    pool = MP.MemoryPool({'a': [8, 16], 'b': [8, 16]}, 24)
    v = ten(E, 'v', [4])
    pool.fill_tensor('a', v)
    same_vals(E, pool.get('b').flat(), v.flat(), 'shared region')
    same_vals(E, pool.get('a', [1, 3]).flat(), v.flat()[:3], 'smaller shape')
    t = pool.get('b', (2, 1))
    w = ten(E, 'w', [2, 1])
    t.copy_(w)
    same_vals(E, pool.get('a').flat(), w.flat() + v.flat()[2:], 'a view writes through')


# ---- the engine on whole graphs
def bc(E, f, a, sa, b, sb):
    """elementwise f with broadcasting, row major"""
    A, B = np.empty(len(a), object), np.empty(len(b), object)
    A[:], B[:] = a, b
    A, B = np.broadcast_arrays(A.reshape(sa), B.reshape(sb))
    return [f(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))], list(A.shape)


def mm(a, n, k, b, m):
    return [dot(a[i * k:(i + 1) * k], b[j::m]) for i in range(n) for j in range(m)]


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def g_mlp(E):
    """a residual chain: y = relu(x W + b) + x, z = y * y"""
    w, b = E.real_array('w', [2, 2], -2, 2), E.real_array('b', [2], -2, 2)
    nodes = [out('MatMul', 'm', ['x', 'w'], ['h0']), out('Add', 'a', ['h0', 'b'], ['h1']), out('Relu', 'r', ['h1'], ['h2']), out('Add', 'a2', ['h2', 'x'], ['y']),
             out('Mul', 'mu', ['y', 'y'], ['z'])]

    def ref(v):
        (x, s), W, B = v['x'], E.elems(w), E.elems(b)
        n = s[0]
        h = mm(x, n, 2, W, 2)
        y = [E.ite(h[i] + B[i % 2] > 0, h[i] + B[i % 2], 0) + x[i] for i in range(2 * n)]
        return {'z': ([u * u for u in y], [n, 2])}
    return nodes, [('w', w), ('b', b)], {'x': ('n', 2)}, {'n': (1, 3)}, ['z'], ref


def g_two(E):
    """two inputs of the same rank with sizes of their own, multiplied and doubled"""
    nodes = [out('Neg', 'ng', ['p'], ['np']), out('Transpose', 't', ['q'], ['qt'], perm=[1, 0]), out('MatMul', 'm', ['np', 'qt'], ['j']), out('Relu', 'r', ['q'], ['y']),
             out('Concat', 'c', ['y', 'q'], ['w'], axis=0), out('Relu', 'r2', ['j'], ['z'])]

    def ref(v):
        (p, sp), (q, sq) = v['p'], v['q']
        pos = lambda u: E.ite(u > 0, u, 0)
        j = [pos(-dot(p[2 * a:2 * a + 2], q[2 * b:2 * b + 2])) for a in range(sp[0]) for b in range(sq[0])]
        return {'w': ([pos(u) for u in q] + q, [2 * sq[0], 2]), 'z': (j, [sp[0], sq[0]])}
    return nodes, [], {'p': ('n', 2), 'q': ('m', 2)}, {'n': (1, 3), 'm': (1, 4)}, ['w', 'z'], ref


def g_ranks(E):
    """a size only the second input has"""
    nodes = [out('Sub', 's', ['q', 'p'], ['d']), out('Mul', 'm', ['d', 'd'], ['e']), out('Add', 'a', ['e', 'p'], ['y'])]

    def ref(v):
        (p, sp), (q, sq) = v['p'], v['q']
        d, s = bc(E, lambda a, b: (a - b) * (a - b), q, sq, p, sp)
        r, s = bc(E, lambda a, b: a + b, d, s, p, sp)
        return {'y': (r, s)}
    return nodes, [], {'p': ('n',), 'q': ('m', 'n')}, {'n': (1, 2), 'm': (1, 3)}, ['y'], ref


def g_branch(E):
    """branches read late: buffers are reused while an early result is still needed"""
    nodes = [out('Neg', 'n0', ['x'], ['a']), out('Add', 'n1', ['a', 'x'], ['b']), out('Mul', 'n2', ['a', 'a'], ['c']), out('Relu', 'n3', ['c'], ['d']), out('Sub', 'n4', ['d', 'b'], ['e']),
             out('Concat', 'n5', ['e', 'a'], ['f'], axis=1), out('Transpose', 'n6', ['f'], ['y'], perm=[1, 0])]

    def ref(v):
        x, (n, c) = v['x']
        rows = [[(x[i * c + j] * x[i * c + j]) for j in range(c)] + [-x[i * c + j] for j in range(c)] for i in range(n)]
        return {'y': ([rows[i][j] for j in range(2 * c) for i in range(n)], [2 * c, n])}
    return nodes, [], {'x': ('n', 'c')}, {'n': (1, 2), 'c': (1, 3)}, ['y'], ref


def g_line(E):
    """vectors of any length: nothing is a multiple of anything"""
    nodes = [out('Neg', 'n0', ['x'], ['a']), out('Mul', 'n1', ['a', 'x'], ['b']), out('Sub', 'n2', ['b', 'a'], ['c']), out('Relu', 'n3', ['c'], ['y'])]

    def ref(v):
        x, s = v['x']
        return {'y': ([E.ite(u - u * u > 0, u - u * u, 0) for u in x], s)}
    return nodes, [], {'x': ('n',)}, {'n': (1, 4)}, ['y'], ref


GR = {'line': g_line, 'mlp': g_mlp, 'two': g_two, 'ranks': g_ranks, 'branch': g_branch}


@contextlib.contextmanager
def engine(E, g):
    """GraphInfer loads its model through onnx_tool.Model: give it this graph"""
    top = E.m('')

    class M:
        def __init__(self, path, cfg=None):
            self.graph = g
    old = top.Model
    top.Model = M
    try:
        yield E.m('inference.infer')
    finally:
        top.Model = old


def h_engine(E, gname, debug, runs, dt='float32', profile=False):
    nodes, inits, desc, rng, outs, ref = GR[gname](E)
    var = {k: E.choice('hi_' + k, [hi]) for k, (lo, hi) in rng.items()}
    g = mkgraph(E, nodes, [(n, [var.get(v, v) for v in s], f32) for n, s in desc.items()], [(o, None, f32) for o in outs], inits)
    with engine(E, g) as IN:
        r = E.call(IN.GraphInfer, 'm.onnx', desc, rng, **({} if dt == 'float32' else {'dtype': getattr(T, dt)}))
        if not r.ok:
            E.fail(f'creating the engine raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    gi = r.val
    size = gi.pool.compress_size
    for t, (o, s) in gi._tensor_blocks.items():
        E.check(0 <= o and o + s <= size, f'{t} lies inside the pool')
        E.check(gi.get_tensor_block(t) == [o, s], f'block of {t}')
    E.check(gi.get_tensor_block('nosuch') is None, 'no block for an unknown tensor')
    for k in range(runs):
        at = {v: E.choice(f'{v}@{k}', list(range(lo, hi + 1))) for v, (lo, hi) in rng.items()}
        ins = {n: ten(E, f'{n}@{k}_', [at.get(v, v) for v in s], dtype=getattr(T, dt)) for n, s in desc.items()}
        vals = {n: (t.flat(), list(t.shape)) for n, t in ins.items()}
        p = profile and E.choice(f'profile@{k}', [False, True])
        r = E.call(gi.forward, ins, debug=debug, **({'profile': True} if p else {}))
        if not r.ok:
            E.fail(f'run {k} raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
        want = ref(vals)
        if p:
            prof = r.val.pop('__profile__', None)
            E.check(prof is not None and dict(prof['op_count']) == {o: sum(n[0] == o for n in nodes) for o in {n[0] for n in nodes}}, f'run {k}: operators counted')
            E.check(sorted((n, o) for n, o, *_ in prof['node_times']) == sorted((n[1], n[0]) for n in nodes), f'run {k}: a time for every node')
            q = E.call(gi.print_profile, prof)
            E.check(q.ok, f'run {k}: the profile is printed')
        E.check(sorted(r.val) == sorted(want), f'run {k}: outputs')
        for o, (w, s) in want.items():
            E.check(E.same(list(r.val[o].shape), s), f'run {k}: shape of {o}')
            same_vals(E, r.val[o].flat(), w, f'run {k}: {o}')
            E.check(E.same(list(gi.get_tensor_shape(o)), s), f'run {k}: reported shape of {o}')
        for n, (v, s) in vals.items():
            E.check(ins[n].flat() is not None and len(ins[n].flat()) == len(v), 'the inputs are left alone')


def h_unsupported(E):
    g = mkgraph(E, [out('Relu', 'r', ['x'], ['a']), out('Softplus', 's', ['a'], ['y'])], [('x', [2, 2], f32)], [('y', None, f32)])
    with engine(E, g) as IN:
        gi = IN.GraphInfer('m.onnx', {'x': ('n', 2)}, {'n': (1, 2)})
    r = E.call(gi.forward, {'x': ten(E, 'x', [E.choice('n', [1, 2]), 2])})
    E.check(not r.ok and isinstance(r.exc, RuntimeError), 'an operator without a kernel is refused')


def h_frommodel(E):
    """the convenience constructor plans the same pool as compress_memory on the compute graph"""
    nodes, inits, desc, rng, outs, _ = g_branch(E)
    mkg = lambda: mkgraph(E, nodes, [('x', [2, 3], f32)], [('y', None, f32)], inits)
    top = E.m('')
    g = mkg()

    class M:
        def __init__(self, path, cfg=None):
            self.graph = g
    old = top.Model
    top.Model = M
    try:
        pool, se = E.m('inference.memory_pool').create_memory_pool_from_model('m.onnx', desc, rng)
    finally:
        top.Model = old
    g2 = mkg()
    g2.graph_reorder_nodes()
    se2 = g2.shape_regress(desc, rng)
    mem, size = g2.get_compute_graph().compress_memory()
    E.check(pool.compress_size == size and {k: list(v) for k, v in pool.items()} == {k: list(v) for k, v in mem.items()}, 'the plan of the model')
    n, c = E.int('n', 1, 2), E.int('c', 1, 3)
    for s in (se, se2):
        s.update_variable('n', n)
        s.update_variable('c', c)
        s.update_variables()
    for t in mem:
        E.check(E.same(se.get_tensorshape(t), se2.get_tensorshape(t)), f'shape engine: {t}')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for d in ('float32', 'float16', 'float64', 'int64', 'uint8'):
        for rank, form in ((None, 'get'), (None, 'item'), (1, 'list'), (2, 'tuple'), (3, 'list'), (1, 'batch'), (3, 'batch')):
            if d != 'float32' and form in ('item', 'batch') and not th:
                continue
            obs.append(Ob(f'get-{d}-{rank}-{form}', h_get, dict(dt=d, rank=rank, form=form), poly=True, weight=2))
    for n in (0, 1, 2, 3):
        obs.append(Ob(f'validate-{n}', h_validate, dict(n=n), weight=1))
    obs.append(Ob('names', h_names))
    for o in ('abc', 'cba', 'bab'):
        for extra, src, dev in ((0, 'np', False), (2, 'torch', True), (1, 'int', False)):
            obs.append(Ob(f'fill-{o}-{extra}-{src}', h_fill, dict(order=o, extra=extra, src=src, dev=dev)))
    obs.append(Ob('alias', h_alias))
    for g in GR:
        obs.append(Ob(f'engine-{g}', h_engine, dict(gname=g, debug=False, runs=3 if th else 2), poly=True, weight=4))
    obs.append(Ob('engine-debug', h_engine, dict(gname='branch', debug=True, runs=2), poly=True, weight=4))
    obs.append(Ob('engine-profile', h_engine, dict(gname='line', debug=False, runs=2, profile=True), poly=True, weight=4))
    for dt in ('float64', 'float16'):
        for g in ('mlp', 'branch', 'line'):
            if g != 'mlp' or th:
                obs.append(Ob(f'engine-{g}-{dt}', h_engine, dict(gname=g, debug=False, runs=2, dt=dt), poly=True, weight=4))
    obs.append(Ob('unsupported', h_unsupported))
    obs.append(Ob('frommodel', h_frommodel))
    return obs


BOUNDS = {
    'pool': 'offsets and sizes up to 16000/4000 bytes, a pool of any such size, shapes of rank 0-3 with extents 1-60, element types of 1, 2, 4 and 8 bytes, plans of 0-3 tensors with offsets and sizes from -50 to 5000',
    'contents': 'three regions written in three orders from arrays, tensors and integers of real symbolic values, zeroed, moved',
    'engine': 'four graphs of 3-7 operators (one and two inputs, shared and separate sizes, late reads), every size in ranges of 1-4, two (thorough: three) runs one behind the other with symbolic values',
}
OUTSIDE = 'torch itself (absent here): the code runs over a stand-in for it in /verif/symex/ftorch.py; regions whose offset is no multiple of the element size; safetensors weights, KV caches and profiling output; graphs mixing element types inside the pool; operators whose result shrinks when an input grows; safety of views handed out before the pool is moved or reused'
ASSUMPTIONS = ['torch is replaced by a stand-in (strided views over a byte store, exact real arithmetic); replays run the real inference code over the same stand-in']
