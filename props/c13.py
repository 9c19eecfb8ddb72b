"""C13 - constant folding keeps the model: the same outputs, minus the nodes that depend on no input."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *

i64, f32, i8 = np.int64, np.float32, np.int8
LO, HI = -20, 20
FN = {'Add': lambda a, b: [x + y for x, y in zip(a, b)], 'Sub': lambda a, b: [x - y for x, y in zip(a, b)],
      'Mul': lambda a, b: [x * y for x, y in zip(a, b)]}


def h_wiring(E, ops, outs, rev):
    """every wiring of the given operators over one input and two constants; outs: which results are graph outputs"""
    n = len(ops)
    pool = ['x', 'w', 'v'] + [f't{i}' for i in range(n)]
    c = lambda s: E.cname(pool, s)
    ins = []
    for i in range(n):
        ins.append([E.name(f'a{i}', pool[:3 + i]) if False else E.name(f'a{i}', pool), E.name(f'b{i}', pool)])
        for v in ins[i]:
            for j in range(i, n):
                E.assume(E.no(E.t_eq(v, f't{j}')))
    nodes = [out(op, f'n{i}', ins[i], [c(f't{i}')]) for i, op in enumerate(ops)]
    base = {k: [E.int(f'{k}{i}', LO, HI) for i in range(2)] for k in 'xwv'}
    oo = [f't{i}' for i in outs]
    mk = lambda **cfg: mkgraph(E, nodes[::-1] if rev else nodes, [(c('x'), [2], i64)], [(c(o), None, i64) for o in oo],
                               [(c('w'), E.array(base['w'], i64)), (c('v'), E.array(base['v'], i64))], **cfg)
    r = E.call(mk, constant_folding=True)
    if not r.ok:
        E.fail(f'folding raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    g = r.val
    # reference: values and which results depend on x
    val, dyn = dict(base), {'x': True, 'w': False, 'v': False}
    cond = lambda v, k: E.t_eq(v, k)

    def pick(v, i):
        r = [val[pool[0]][0], val[pool[0]][1]]
        d = dyn['x']
        for k in pool[1:3 + i]:
            h = cond(v, k)
            r = [E.ite(h, a, b) for a, b in zip(val[k], r)]
            d = E.ite(h, dyn[k], d)
        return r, d
    for i, op in enumerate(ops):
        (a, da), (b, db) = pick(ins[i][0], i), pick(ins[i][1], i)
        val[f't{i}'] = FN[op](a, b)
        dyn[f't{i}'] = E.any(da, db)
    for i in range(n):
        E.check(E.eq(dyn[f't{i}'], f'n{i}' in g.nodemap), f'n{i} stays exactly when it depends on the input')
    g.graph_reorder_nodes()
    r = E.call(g.value_infer, {c('x'): E.array(base['x'], i64)})
    if not r.ok:
        E.fail(f'value_infer of the folded graph raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    E.check(len(r.val) == len(oo) and [str(o) if not E.sym else o for o in g.output] == [c(o) for o in oo], 'the graph outputs are the same')
    for o, got in zip(oo, r.val):
        ok = got is not None
        E.check(ok, f'output {o} has a value')
        if ok:
            E.observe(o, E.elems(got))
            E.check(E.same(E.elems(got), val[o]), f'value of output {o}')
            E.check(np.dtype(got.dtype) == np.dtype(i64), f'type of output {o}')
    # what is kept as a constant holds the right value
    for k in ('w', 'v'):
        if c(k) in g.tensormap:
            E.check(E.same(E.elems(g.tensormap[c(k)].numpy), base[k]), f'constant {k}')
    for i in range(n):
        t = c(f't{i}')
        if f'n{i}' not in g.nodemap and t in g.tensormap and g.tensormap[t].numpy is not None:
            E.check(E.same(E.elems(g.tensormap[t].numpy), val[f't{i}']), f'folded constant t{i}')
            E.check(g.tensormap[t].type == E.tensor.STATIC_TENSOR, f't{i} is a constant')
        for m in g.nodemap.values():
            if t in m.input and f'n{i}' not in g.nodemap:
                E.check(t in g.initials, f't{i}, used by a remaining node, is an initialiser')


def compare(E, nodes, inputs, outs, inits, feed, want, gone, label, values=True, **cfg):
    res = {}
    for fold in (False, True):
        r = E.call(mkgraph, E, nodes, inputs, outs, inits, constant_folding=fold, **cfg)
        if not r.ok:
            E.fail(f'{label}: loading (folding={fold}) raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        g = r.val
        all_ = [n[1] for n in nodes]
        E.check(sorted(g.nodemap) == sorted(all_ if not fold else [n for n in all_ if n not in gone]), f'{label}: nodes left (folding={fold})')
        if not values:
            continue
        g.graph_reorder_nodes()
        r = E.call(g.value_infer, {k: v for k, v in feed.items()})
        if not r.ok:
            E.fail(f'{label}: value_infer (folding={fold}) raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        E.check(len(r.val) == len(outs), f'{label}: number of outputs (folding={fold})')
        for (o, _, dt), got, w in zip(outs, r.val, want):
            if got is None:
                E.check(False, f'{label}: output {o} has a value (folding={fold})')
                continue
            E.observe(f'{o}-{fold}', E.elems(got))
            E.check(E.same(E.elems(got), E.elems(w)), f'{label}: value of {o} (folding={fold})')
            E.check(list(got.shape) == list(w.shape), f'{label}: shape of {o} (folding={fold})')
            E.check(np.dtype(got.dtype) == np.dtype(dt), f'{label}: type of {o} (folding={fold})')


def arr(E, nm, shape, dt=i64, lo=LO, hi=HI):
    return E.int_array(nm, shape, lo, hi, dt)


def h_case(E, case):
    CASES[case](E)


CASES = {}


def case(f):
    CASES[f.__name__[2:]] = f
    return f


@case
def k_transposed_weight(E):
    w, x = arr(E, 'w', [2, 3]), arr(E, 'x', [2, 3])
    W, X = E.elems(w), E.elems(x)
    wt = [[W[r * 3 + c] for r in range(2)] for c in range(3)]
    y = [[sum((X[r * 3 + k] * wt[k][c] for k in range(3)), 0) for c in range(2)] for r in range(2)]
    compare(E, [out('Transpose', 't', ['w'], ['wt'], perm=[1, 0]), out('MatMul', 'm', ['x', 'wt'], ['y'])], [('x', [2, 3], i64)], [('y', None, i64)],
            [('w', w)], {'x': x}, [E.array(y, i64)], ['t'], 'transposed weight')


@case
def k_constant_chain(E):
    """Constant -> Add -> Split (two outputs) -> both used"""
    c, x = arr(E, 'c', [4]), arr(E, 'x', [2])
    C, X = E.elems(c), E.elems(x)
    s = [v + 3 for v in C]
    y = [X[i] * s[i] - s[2 + i] for i in range(2)]
    compare(E, [out('Constant', 'k', [], ['kc'], value=c), out('Add', 'a', ['kc', 'three'], ['s']), out('Split', 'sp', ['s'], ['s0', 's1'], axis=0),
                out('Mul', 'm', ['x', 's0'], ['m0']), out('Sub', 'sb', ['m0', 's1'], ['y'])], [('x', [2], i64)], [('y', None, i64)],
            [('three', E.array([3], i64))], {'x': x}, [E.array(y, i64)], ['k', 'a', 'sp'], 'constant chain')


@case
def k_constant_output(E):
    """one graph output does not depend on any input"""
    w, x = arr(E, 'w', [2]), arr(E, 'x', [2])
    W, X = E.elems(w), E.elems(x)
    compare(E, [out('Mul', 'a', ['w', 'w'], ['k']), out('Add', 'b', ['x', 'k'], ['y'])], [('x', [2], i64)], [('k', None, i64), ('y', None, i64)], [('w', w)],
            {'x': x}, [E.array([v * v for v in W], i64), E.array([a + v * v for a, v in zip(X, W)], i64)], ['a'], 'constant output')


@case
def k_unused_constant_output(E):
    """the same, and nothing else uses the constant"""
    w, x = arr(E, 'w', [2]), arr(E, 'x', [2])
    W, X = E.elems(w), E.elems(x)
    compare(E, [out('Mul', 'a', ['w', 'w'], ['k']), out('Neg', 'b', ['x'], ['y'])], [('x', [2], i64)], [('k', None, i64), ('y', None, i64)], [('w', w)],
            {'x': x}, [E.array([v * v for v in W], i64), E.array([-a for a in X], i64)], ['a'], 'unused constant output')


@case
def k_dequantize(E):
    """DequantizeLinear of a weight is never folded"""
    w = arr(E, 'w', [2], i8, -5, 5)
    x = E.real_array('x', [2], -4, 4)
    W, X = E.elems(w), E.elems(x)
    compare(E, [out('DequantizeLinear', 'dq', ['w', 'sc', 'zp'], ['wf']), out('Mul', 'm', ['x', 'wf'], ['y'])], [('x', [2], f32)], [('y', None, f32)],
            [('w', w), ('sc', E.array(0.5, f32)), ('zp', E.array(0, i8))], {'x': x}, [E.array([a * b * 0.5 for a, b in zip(X, W)], f32)], [], 'dequantize', False)


@case
def k_kept(E):
    """a constant node the tool cannot evaluate is kept, with what depends on it; other constants go"""
    w, v = E.real_array('w', [2], -4, 4), E.real_array('v', [2], -4, 4)
    V = E.elems(v)
    nodes = [out('Gelu', 'g', ['w'], ['gw']), out('Neg', 'n', ['gw'], ['nw']), out('Neg', 'k', ['v'], ['kv']), out('Add', 's', ['kv', 'v'], ['sv']),
             out('Add', 'a', ['nw', 'sv'], ['aw']), out('Add', 'c', ['x', 'aw'], ['y'])]
    io = [('x', [2], f32)], [('y', None, f32), ('gw', None, f32)], [('w', w), ('v', v)]
    compare(E, nodes, *io, {}, None, ['k', 's'], 'kept', False)
    g = mkgraph(E, nodes, *io, constant_folding=True)
    E.check(list(g.input) == ['x'], 'the graph input is the same')
    E.check('sv' in g.initials and E.same(E.elems(g.tensormap['sv'].numpy), [0, 0]) and 'kv' not in g.initials, 'only what is read is kept as a constant')
    for t in ('gw', 'nw', 'aw'):
        E.check(t not in g.initials and t in g.dynamics and g.tensormap[t].type == E.tensor.DYNAMIC_TENSOR, f'{t} is computed')
    E.check('w' in g.initials and E.same(E.elems(g.tensormap['w'].numpy), E.elems(w)), 'the weight read is kept')
    r = E.call(g.shape_infer)
    E.check(r.ok and all(list(g.tensormap[t].get_shape()) == [2] for t in ('gw', 'nw', 'aw', 'y')), 'shapes of what is kept')


@case
def k_kept_grouped(E):
    """the same for a grouped convolution of constants"""
    w, v = E.real_array('w', [2, 1, 1, 1], -4, 4), E.real_array('v', [1, 2, 2, 2], -4, 4)
    nodes = [out('Conv', 'g', ['v', 'w'], ['gw'], group=2, kernel_shape=[1, 1]), out('Relu', 'n', ['gw'], ['nw']), out('Add', 'c', ['x', 'nw'], ['y'])]
    compare(E, nodes, [('x', [1, 2, 2, 2], f32)], [('y', None, f32)], [('w', w), ('v', v)], {}, None, [], 'kept', False)


@case
def k_gather_table(E):
    """constant indices into a constant table, added to the input; an optional input is left out"""
    t, x = arr(E, 't', [3, 2]), arr(E, 'x', [2])
    T_, X = E.elems(t), E.elems(x)
    compare(E, [out('Gather', 'g', ['t', 'i'], ['row'], axis=0), out('Clip', 'cl', ['row', '', 'mx'], ['rc']), out('Add', 'a', ['x', 'rc'], ['y'])],
            [('x', [2], i64)], [('y', None, i64)], [('t', t), ('i', E.array(-1, i64)), ('mx', E.array(5, i64))], {'x': x},
            [E.array([X[j] + E.min(T_[4 + j], 5) for j in range(2)], i64)], ['g', 'cl'], 'gather from a table')


@case
def k_shared(E):
    """one folded constant feeds several nodes, one of which also reads it twice"""
    w, x = arr(E, 'w', [2]), arr(E, 'x', [2])
    W, X = E.elems(w), E.elems(x)
    compare(E, [out('Neg', 'a', ['w'], ['k']), out('Mul', 'kk', ['k', 'k'], ['k2']), out('Add', 'b', ['x', 'k'], ['p']), out('Mul', 'c', ['p', 'k2'], ['y'])],
            [('x', [2], i64)], [('y', None, i64)], [('w', w)], {'x': x}, [E.array([(a - v) * v * v for a, v in zip(X, W)], i64)], ['a', 'kk'], 'shared')


@case
def k_all_constant(E):
    """nothing depends on the input"""
    w, x = arr(E, 'w', [2]), arr(E, 'x', [2])
    W = E.elems(w)
    compare(E, [out('Neg', 'a', ['w'], ['k']), out('Add', 'b', ['k', 'w'], ['y'])], [('x', [2], i64)], [('y', None, i64)], [('w', w)], {'x': x},
            [E.array([v - v for v in W], i64)], ['a', 'b'], 'all constant')


def h_multi(E, parts, used):
    """a folded Split of a constant into parts of the given lengths (1 and 0 among them); the results listed in used are read, one each, by a node of the graph"""
    n = sum(parts)
    w, x = arr(E, 'w', [n]), arr(E, 'x', [1])
    W, X = E.elems(w), E.elems(x)
    off = [sum(parts[:i]) for i in range(len(parts))]
    nodes = [out('Split', 'sp', ['w', 'lens'], [f'p{i}' for i in range(len(parts))], axis=0)]
    nodes += [out('Mul', f'm{i}', ['x', f'p{i}'], [f'y{i}']) for i in used]
    compare(E, nodes, [('x', [1], i64)], [(f'y{i}', None, i64) for i in used], [('w', w), ('lens', E.array(parts, i64))], {'x': x},
            [E.array([X[0] * v for v in W[off[i]:off[i] + parts[i]]], i64) for i in used], ['sp'], f'split {parts} {used}')
    g = mkgraph(E, nodes, [('x', [1], i64)], [(f'y{i}', None, i64) for i in used], [('w', w), ('lens', E.array(parts, i64))], constant_folding=True)
    E.check(list(g.input) == ['x'], 'the graph input is the same')
    for i in used:
        t = g.tensormap[f'p{i}']
        E.check(f'p{i}' in g.initials and f'p{i}' not in g.dynamics, f'p{i} is an initialiser')
        E.check(t.type == E.tensor.STATIC_TENSOR and E.same(E.elems(t.numpy), W[off[i]:off[i] + parts[i]]), f'p{i} holds its part')


def h_scalars(E, shape):
    """folded constants of every small shape (rank 0, one element, empty), through a two-step chain"""
    w, x = arr(E, 'w', shape), arr(E, 'x', [2] if shape != [0] else [1])
    W, X = E.elems(w), E.elems(x)
    nodes = [out('Neg', 'a', ['w'], ['k']), out('Add', 'b', ['k', 'w'], ['k2']), out('Sub', 'b2', ['k2', 'w'], ['k3']), out('Add', 'c', ['x', 'k3'], ['y']), out('Sub', 'd', ['y', 'k'], ['z'])]
    k3 = [-v for v in W]
    y = [a + k3[0] for a in X] if len(W) == 1 else ([a + b for a, b in zip(X, k3)] if W else [])
    z = [a - k3[0] for a in y] if len(W) == 1 else ([a - b for a, b in zip(y, k3)] if W else [])
    yshape = list(shape[:-1]) + [len(y)] if len(shape) > 1 else [len(y)]
    compare(E, nodes, [('x', list(x.shape), i64)], [('z', None, i64)], [('w', w)], {'x': x}, [E.array(z, i64).reshape(yshape)], ['a', 'b', 'b2'], f'constant of shape {shape}')


def obligations(tier):
    th = tier == 'thorough'
    obs = [Ob(f'case-{k}', h_case, dict(case=k)) for k in CASES]
    for parts in ([2, 2, 1], [1, 1, 1], [1, 2, 0], [3, 0, 1]) + (([1, 0, 2, 1], [2, 1, 1, 1, 1]) if th else ()):
        for used in [[i] for i in range(len(parts))] + [list(range(len(parts)))]:
            obs.append(Ob(f'parts-{"".join(map(str, parts))}-{"".join(map(str, used))}', h_multi, dict(parts=parts, used=used)))
    obs += [Ob(f'constant-{"x".join(map(str, s)) or "scalar"}', h_scalars, dict(shape=s)) for s in ([], [1], [2], [1, 1], [1, 2], [0])]
    for rev in (False, True):
        for ops in (('Add',), ('Sub', 'Mul')):
            n = len(ops)
            obs.append(Ob(f'wiring-{"-".join(ops)}-{rev}', h_wiring, dict(ops=ops, outs=[n - 1], rev=rev), weight=n))
            if n > 1:
                obs.append(Ob(f'wiring-{"-".join(ops)}-{rev}-all', h_wiring, dict(ops=ops, outs=list(range(n)), rev=rev), weight=n))
        if th:
            obs.append(Ob(f'wiring-3-{rev}', h_wiring, dict(ops=('Sub', 'Add', 'Sub'), outs=[1, 2], rev=rev), weight=30))
    return obs


BOUNDS = {'all': 'every wiring of one and two Add/Sub/Mul nodes (three in the thorough tier) over one input and two constants, in two node orders, with one or all '
                 'results as graph outputs; eight further graphs (transposed weight, Constant/Split chain, constant outputs, table lookup, optional operand, '
                 'shared constant, DequantizeLinear, nothing dynamic) and one with nodes that cannot be evaluated; splits of a constant in 3 parts (5 thorough) of 0-3 elements, each used alone or together; constants of rank 0-2 and of no elements; tensors of 2-6 elements with values -20..20'}
OUTSIDE = 'larger graphs'
ASSUMPTIONS = ['tensor names are symbols of a finite pool compared by equality', 'integer element values, no wrap-around within the bounds']
