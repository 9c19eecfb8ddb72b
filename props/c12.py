"""C12 - node reordering: a topological order of the same graph."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from . import net

f32 = np.float32


def wiring(E, n, k, outs2, empty=()):
    """n nodes listed in any order; every operand is a symbolic tensor name: a graph input, a weight or the output of any other node (or left out: the nodes in `empty` leave out an output, too)"""
    pool = ['x', 'w'] + ([''] if empty else []) + [f't{i}' for i in range(n)] + (['u0'] if outs2 else [])
    rank = [E.int(f'r{i}', 0, n - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.no(rank[i] == rank[j]))
    ins = []
    for i in range(n):
        row = []
        for j in range(k if isinstance(k, int) else k[i]):
            v = E.name(f'in{i}_{j}', pool)
            for p in range(n):
                E.assume(E.any(E.no(E.t_eq(v, f't{p}')), rank[p] < rank[i]))
            if outs2:
                E.assume(E.any(E.no(E.t_eq(v, 'u0')), rank[0] < rank[i]))
            row.append(v)
        ins.append(row)
    c = lambda s: E.cname(pool, s)
    outs = [([c('')] if i in empty else []) + [c(f't{i}')] + ([c('u0')] if outs2 and i == 0 else []) for i in range(n)]
    return ins, outs, c


def mk(E, n, ins, outs, c):
    nodes = [out('Custom', f'n{i}', list(ins[i]), list(outs[i])) for i in range(n)]
    return mkgraph(E, nodes, [(c('x'), [4], f32)], [(outs[-1][-1], None, f32)], [(c('w'), E.array(np.ones(4, f32), f32))])


def h_reorder(E, n, k, outs2, folding, empty=()):
    ins, outs, c = wiring(E, n, k, outs2, empty)
    full, outs = outs, [[o for o in os if not (empty and o == c(''))] for os in outs]
    g = mk(E, n, ins, full, c)
    before = list(g.dynamics)
    r = E.call(g.graph_reorder_nodes)
    if not r.ok:
        E.fail(f'graph_reorder_nodes raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    order = list(g.nodemap)
    E.observe('order', order)
    E.check(sorted(order) == [f'n{i}' for i in range(n)], 'the same nodes, each once')
    pos = {k: i for i, k in enumerate(order)}
    if len(pos) != n:
        return
    for i in range(n):
        nd = g.nodemap[f'n{i}']
        E.check(len(nd.input) == len(ins[i]) and E.all(*[E.t_eq(a, b) for a, b in zip(nd.input, ins[i])]), f'inputs of n{i} are unchanged')
        E.check(list(nd.output) == full[i], f'outputs of n{i} are unchanged')
        for v in ins[i]:
            for p in range(n):
                for o in outs[p]:
                    E.check(E.any(E.no(E.t_eq(v, o)), pos[f'n{p}'] < pos[f'n{i}']), f'n{i} comes after the producer of its operand')
    E.check(len(g.dynamics) == len(before) and set(g.dynamics) == set(before), 'the same activations')
    # producer and consumer tables describe the graph
    for o in ('x', 'w'):
        E.check(not g.producedby.get(c(o), []), f'{o} has no producer')
        for i in range(n):
            uses = E.any(*[E.t_eq(v, o) for v in ins[i]]) if ins[i] else False
            E.check(E.eq(uses, (f'n{i}' in g.consumedby.get(c(o), []))), f'consumer of {o}')
    for p in range(n):
        for o in outs[p]:
            E.check(list(g.producedby.get(o, [])) == [f'n{p}'], f'producer of {o}')
            for i in range(n):
                uses = E.any(*[E.t_eq(v, o) for v in ins[i]]) if ins[i] else False
                E.check(E.eq(uses, (f'n{i}' in g.consumedby.get(o, []))), f'consumer of {o}')


def h_sub(E, n):
    """topsort_nodes of a subset orders exactly that subset"""
    ins, outs, c = wiring(E, n, [1, 2, 1] if n == 3 else [1, 1, 1, 1], False)
    g = mk(E, n, ins, outs, c)
    keep = [f'n{i}' for i in range(n) if i != 1]
    got = list(g.topsort_nodes(keep, [c('x')]))
    E.check(sorted(got) == sorted(keep), 'exactly the requested nodes')
    pos = {k: i for i, k in enumerate(got)}
    for i in range(n):
        for v in ins[i]:
            for p in range(n):
                if i != 1 and p != 1:
                    E.check(E.any(E.no(E.t_eq(v, f't{p}')), pos[f'n{p}'] < pos[f'n{i}']), f'n{i} comes after the producer of its operand')


def h_net(E, free, fix, outs, how):
    # the listing: rotated, taken with a stride, and/or reversed
    rot, step, rev = E.choice('rotate', list(range(8))), E.choice('step', [1, 3, 5, 7]), E.choice('reverse', [False, True])
    order = [(rot + step * i) % 8 for i in range(8)]
    N = net.Net(E, free, outs, order[::-1] if rev else order, fix)
    if how == 'reorder':
        r = E.call(N.g.graph_reorder_nodes)
    else:
        E.call(N.g.remove_node, 'n6')
        r = E.call(N.g.graph_reorder_nodes)
    if not r.ok:
        E.fail(f'graph_reorder_nodes raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    left = [i for i in range(8) if how == 'reorder' or i != 6]
    N.check_nodes(N.g, left, 'reordered')
    N.check_order(N.g, left, 'reordered')
    N.check_tables(N.g, left, 'reordered')
    E.check(list(N.g.output) == [o for o in N.outs if N.made[o] in left], 'the graph outputs stay')
    N.check_values(N.g, N.val, 'reordered')


def obligations(tier):
    th = tier == 'thorough'
    obs = [Ob('n1', h_reorder, dict(n=1, k=2, outs2=False, folding=False)), Ob('n2', h_reorder, dict(n=2, k=2, outs2=False, folding=False)),
           Ob('n2-two-outputs', h_reorder, dict(n=2, k=2, outs2=True, folding=False)),
           Ob('n3-k1', h_reorder, dict(n=3, k=1, outs2=False, folding=False)),
           Ob('n3', h_reorder, dict(n=3, k=[1, 2, 2], outs2=False, folding=False)),
           Ob('n3b', h_reorder, dict(n=3, k=[1, 1, 2], outs2=True, folding=False)),
           Ob('n4-k1', h_reorder, dict(n=4, k=1, outs2=False, folding=False)), Ob('sub3', h_sub, dict(n=3)), Ob('sub4', h_sub, dict(n=4))]
    obs += [Ob('n3-three-operands', h_reorder, dict(n=3, k=[3, 1, 1], outs2=False, folding=False), weight=3), Ob('n2-three-operands', h_reorder, dict(n=2, k=3, outs2=True, folding=False))]
    obs += [Ob(f'net-{how}-{k}', h_net, dict(free=() if not th else (k,), fix=k, outs=k, how=how), weight=4) for k, how in enumerate(('reorder', 'reorder', 'remove'))]
    obs += [Ob(f'left-out-{n}-{"".join(map(str, e))}', h_reorder, dict(n=n, k=k, outs2=o, folding=False, empty=e)) for n, k, o, e in ((2, [2, 2], False, (0,)), (2, [2, 2], True, (0, 1)), (3, [1, 1, 2], False, (0, 1)), (3, [1, 1, 1], True, (0, 1, 2)))]
    if th:
        obs += [Ob('n3-three-operands-two', h_reorder, dict(n=3, k=[3, 1, 2], outs2=True, folding=False), weight=30), Ob('n3c', h_reorder, dict(n=3, k=[2, 1, 2], outs2=True, folding=False)), Ob('n5-k1', h_reorder, dict(n=5, k=1, outs2=False, folding=False)), Ob('n4', h_reorder, dict(n=4, k=[1, 2, 1, 2], outs2=False, folding=False))]
    return obs


BOUNDS = {'all': 'graphs of 1-4 nodes (5 thorough) in any listing order; every operand symbolically any tensor of the graph (inputs, weights, outputs of any other '
                 'node, also twice the same) subject to acyclicity; one, two or three operands per node (three up to 2 nodes) and a node with two outputs up to 3 nodes, one operand '
                 'at 4 (two thorough); an eight-node graph with three-result and four-operand nodes in 64 listings; graphs of 2-3 nodes some of which leave out operands and outputs (empty names)'}
OUTSIDE = 'larger graphs; cyclic graphs (not valid ONNX)'
ASSUMPTIONS = ['tensor names are symbols of a finite pool compared by equality']
