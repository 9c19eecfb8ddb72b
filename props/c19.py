"""C19 - editing a graph: removing, skipping and dumping keep the rest of the graph consistent."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from . import c09
from .c13 import FN
from .c18 import Wiring, LO, HI
from . import net

f32, i64 = np.float32, np.int64


def tables(E, W, g, left, ins, outs, label):
    """producedby and consumedby name exactly the readers and writers; ins[i]/outs[i] are what node i reads and writes now"""
    for t in W.pool:
        for i in range(W.n):
            w = i in left and t in outs[i]
            E.check(E.eq(w, f'n{i}' in g.producedby.get(W.c(t), [])), f'{label}: producer table of {t}')
            r = E.any(*[E.t_eq(v, t) for v in ins[i]]) if i in left else False
            E.check(E.eq(r, f'n{i}' in g.consumedby.get(W.c(t), [])), f'{label}: consumer table of {t}')


def untouched(E, W, g, left, label):
    E.check(sorted(g.nodemap) == sorted(f'n{i}' for i in left), f'{label}: exactly the other nodes stay')
    for i in left:
        if f'n{i}' in g.nodemap:
            nd = g.nodemap[f'n{i}']
            E.check(nd.op_type == W.ops[i] and len(nd.input) == len(W.ins[i]) and E.all(*[E.t_eq(a, b) for a, b in zip(nd.input, W.ins[i])]) and
                    list(nd.output) == [W.c(f't{i}')], f'{label}: node n{i} is unchanged')


def values(E, W, g, want, label):
    """the graph outputs, evaluated"""
    r = E.call(g.value_infer, {W.c('x'): E.array(W.val['x'], i64)})
    if not r.ok:
        E.fail(f'{label}: value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    E.check(len(r.val) == len(want), f'{label}: number of outputs')
    for (o, w), got in zip(want, r.val):
        E.check(got is not None and E.same(E.elems(got), w), f'{label}: value of {o}')


def h_remove(E, ops, outs, i, rev, ar):
    W = Wiring(E, ops, outs, rev, ar)
    g = W.g
    r = E.call(g.remove_node, f'n{i}')
    if not r.ok:
        E.fail(f'remove_node raises {type(r.exc).__name__}')
    left = [j for j in range(W.n) if j != i]
    untouched(E, W, g, left, 'remove_node')
    tables(E, W, g, left, W.ins, [[f't{j}'] for j in range(W.n)], 'remove_node')
    E.check([o for o in g.output] == [W.c(o) for o in W.outs if o != f't{i}'] and list(g.input) == ([W.c('x')] if W.c('x') in g.input else []),
            'remove_node: outputs it does not produce stay')
    r = E.call(g.remove_node, 'nobody')
    E.check(r.ok and len(g.nodemap) == W.n - 1, 'removing an unknown node does nothing')


def h_subtree(E, ops, outs, i, rev, ar):
    W = Wiring(E, ops, outs, rev, ar)
    g = W.g
    dep = []
    for j in range(W.n):
        dep.append(True if j == i else E.any(*[E.all(dep[k], W.reads(j, f't{k}')) for k in range(j)], False))
    r = E.call(g.remove_subtree, f'n{i}')
    if not r.ok:
        E.fail(f'remove_subtree raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    left = [j for j in range(W.n) if f'n{j}' in g.nodemap]
    for j in range(W.n):
        E.check(E.eq(E.no(dep[j]), j in left), f'n{j} goes exactly when it depends on n{i}')
    untouched(E, W, g, left, 'remove_subtree')
    tables(E, W, g, left, W.ins, [[f't{j}'] for j in range(W.n)], 'remove_subtree')


def h_dangling(E, ops, outs, rev, ar):
    W = Wiring(E, ops, outs, rev, ar)
    g = W.g
    need = [None] * W.n
    for j in reversed(range(W.n)):
        need[j] = E.any(f't{j}' in W.outs, *[E.all(need[k], W.reads(k, f't{j}')) for k in range(j + 1, W.n)])
    r = E.call(g.remove_dangling_nodes)
    if not r.ok:
        E.fail(f'remove_dangling_nodes raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    left = [j for j in range(W.n) if f'n{j}' in g.nodemap]
    for j in range(W.n):
        E.check(E.eq(need[j], j in left), f'n{j} stays exactly when a graph output depends on it')
    E.check(list(g.output) == [W.c(o) for o in W.outs], 'the graph outputs stay')
    untouched(E, W, g, left, 'remove_dangling_nodes')
    tables(E, W, g, left, W.ins, [[f't{j}'] for j in range(W.n)], 'remove_dangling_nodes')
    if rev:
        g.graph_reorder_nodes()
    values(E, W, g, [(o, W.val[o]) for o in W.outs], 'remove_dangling_nodes')


def h_skip(E, ops, outs, i, rev, ar, then=None, weight_ok=False):
    """skip_node: readers of the result read the operand instead"""
    W = Wiring(E, ops, outs, rev, ar)
    g, n = W.g, W.n
    src = W.ins[i][0]
    const = {'x': False, 'w': True}
    for k in range(i):
        const[f't{k}'] = E.all(*[E.any(*[E.all(c, E.t_eq(v, t)) for t, c in const.items()]) for v in W.ins[k]])
    for t, c in const.items():
        E.assume(E.no(E.all(c, E.t_eq(src, t))))        # its first operand is an activation
    # the values without node i
    val = {k: W.val[k] for k in W.base}

    def pick(v, k):
        r = val[W.pool[0]]
        for p in W.pool[1:len(W.base) + k]:
            r = [E.ite(E.t_eq(v, p), a, b) for a, b in zip(val[p], r)]
        return r
    for k in range(n):
        if k == i:
            val[f't{k}'] = pick(src, k)
        else:
            val[f't{k}'] = FN[ops[k]](pick(W.ins[k][0], k), pick(W.ins[k][1], k))
    mine = f't{i}' in W.outs
    border = E.any(*[E.t_eq(src, b) for b in ['x'] + W.outs])
    r = E.call(g.skip_node, f'n{i}')
    if not r.ok:
        E.fail(f'skip_node raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    if mine:
        # an input or output cannot become a graph output of another name: the node has to stay
        E.check(E.eq(border, f'n{i}' in g.nodemap), 'the node is gone unless it separates two graph inputs/outputs')
    else:
        E.check(f'n{i}' not in g.nodemap, 'the node is gone')
    gone = f'n{i}' not in g.nodemap
    E.check(all(f'n{k}' in g.nodemap for k in range(n) if k != i), 'the other nodes stay')
    E.check(list(g.output) == [W.c(o) for o in W.outs], 'the graph outputs keep their names')
    for t in W.pool:
        for k in range(n):
            if f'n{k}' not in g.nodemap:
                nd_in, nd_out = [], []
            else:
                nd_in, nd_out = g.nodemap[f'n{k}'].input, g.nodemap[f'n{k}'].output
            E.check((W.c(t) in nd_in) == (f'n{k}' in g.consumedby.get(W.c(t), [])), f'consumer table of {t}')
            E.check((W.c(t) in nd_out) == (f'n{k}' in g.producedby.get(W.c(t), [])), f'producer table of {t}')
    if not gone:
        untouched(E, W, g, list(range(n)), 'skip_node')
        return
    if then == 'dangling':
        g.remove_dangling_nodes()
    if rev:
        g.graph_reorder_nodes()
    values(E, W, g, [(o, val[o]) for o in W.outs], 'skip_node')


def h_skip_two(E, second):
    """a node with two activation operands, or with two results, is not skipped"""
    h = E.int('h', 1, 64)
    nodes = [out('Relu', 'r', ['x'], ['r']), out('Add' if second == 'in' else 'Custom', 'a', ['r', 'x'] if second == 'in' else ['r'], ['a'] + (['b'] if second == 'out' else [])),
             out('Neg', 'n', ['a'], ['y'])] + ([out('Neg', 'm', ['b'], ['z'])] if second == 'out' else [])
    g = mkgraph(E, nodes, [('x', [h], f32)], [('y', [h], f32)] + ([('z', [h], f32)] if second == 'out' else []))
    r = E.call(g.skip_node, 'a')
    E.check(r.ok and [(k, list(v.input), list(v.output)) for k, v in g.nodemap.items()] == [(x[1], x[2], x[3]) for x in nodes], 'the graph is left as it is')


def h_skip_part(E, pos, final):
    """the skipped node reads one of three results of its producer, another node reads it twice"""
    h = E.int('h', 1, 64)
    t = f's{pos}'
    nodes = [out('Split', 'sp', ['x'], ['s0', 's1', 's2'], axis=0, num_outputs=3), out('Relu', 'r', [t], ['y']), out('Add', 'a', [t, t], ['z']),
             out('Sum', 'su', ['s0', t, 's2'] + ([] if final else ['y', 'y']), ['q'])]
    g = mkgraph(E, nodes, [('x', [3, h], f32)], [(o, [1, h], f32) for o in (['y'] if final else []) + ['z', 'q']])
    r = E.call(g.skip_node, 'r')
    if not r.ok:
        E.fail(f'skip_node raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    f = lambda n: 'y' if final and n == t else t if not final and n == 'y' else n
    E.check({k: (v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items()} == {n[1]: (n[0], [f(i) for i in n[2]], [f(o) for o in n[3]]) for n in nodes if n[1] != 'r'},
            'skip_node: the others read and make what they did, the result renamed in every place')
    E.check(list(g.output) == (['y'] if final else []) + ['z', 'q'], 'skip_node: the graph outputs keep their names')
    c09.go(E, g, {'x': ([3, h], f32)}, 'skip_node')
    check_tensors(E, g, {o: [1, h] for o in (['y'] if final else []) + ['z', 'q']}, 'skip_node')


def h_shapeops(E, reorder):
    """fusion.removeShapeOps skips every Flatten/Reshape/Squeeze/Unsqueeze, whatever their constant operands"""
    n, h = E.int('n', 1, 64), E.int('h', 1, 64)
    nodes = [out('Relu', 'r', ['x'], ['r']), out('Flatten', 'fl', ['r'], ['f'], axis=1), out('Reshape', 're', ['f', 'tgt'], ['g']), out('Unsqueeze', 'un', ['g', 'ax'], ['u']),
             out('Squeeze', 'sq', ['u', 'ax'], ['s']), out('Neg', 'ng', ['s'], ['y']), out('Mul', 'mu', ['f', 's'], ['z']), out('Constant', 'k', [], ['tgt'], value=E.array([-1], i64))]
    g = mkgraph(E, nodes, [('x', [n, h, 2], f32)], [('y', None, f32), ('z', None, f32)], [('ax', E.array([0], i64))])
    if reorder:
        g.graph_reorder_nodes()
    r = E.call(E.m('fusion').removeShapeOps, g)
    if not r.ok:
        E.fail(f'removeShapeOps raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    g = r.val
    got = {k: (v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items() if k != 'k'}
    E.check(got == {'r': ('Relu', ['x'], ['r']), 'ng': ('Neg', ['r'], ['y']), 'mu': ('Mul', ['r', 'r'], ['z'])}, 'the other nodes are wired to each other')
    g.graph_reorder_nodes()
    c09.go(E, g, {'x': ([n, h, 2], f32)}, 'removeShapeOps')
    check_tensors(E, g, {'r': [n, h, 2], 'y': [n, h, 2], 'z': [n, h, 2]}, 'removeShapeOps')


def h_dump(E, ops, outs, dump, rev, ar):
    """add_dump_tensors: the named tensors become graph outputs, after the existing ones, once"""
    W = Wiring(E, ops, outs, rev, ar)
    g = W.g
    r = E.call(g.add_dump_tensors, [W.c(t) for t in dump])
    if not r.ok:
        E.fail(f'add_dump_tensors raises {type(r.exc).__name__}')
    want = list(W.outs)
    for t in dump:
        if t in W.val and t not in want:
            want.append(t)
    E.check(list(g.output) == [W.c(o) for o in want], 'the outputs afterwards')
    untouched(E, W, g, list(range(W.n)), 'add_dump_tensors')
    if rev:
        g.graph_reorder_nodes()
    values(E, W, g, [(o, W.val[o]) for o in want], 'dumped outputs')


def h_add(E, dt):
    """add_initial and add_dynamic register a tensor of that name, data and kind; a node that uses it sees it"""
    n = E.int('n', 1, 64)
    g = mkgraph(E, [out('Relu', 'r', ['x'], ['y'])], [('x', [n, 3], f32)], [('y', None, f32)])
    v = [E.int(f'v{i}', -100, 100) for i in range(3)] if np.dtype(dt) == np.dtype(i64) else [E.real(f'v{i}', -100, 100) for i in range(3)]
    t = g.add_initial('b', E.array(v, dt))
    d = g.add_dynamic('e', E.array(v, dt))
    E.check(g.initials == ['b'] and 'e' in g.dynamics and 'b' not in g.dynamics and g.tensormap['b'] is t and g.tensormap['e'] is d, 'registered')
    for nm, x, kind in (('b', t, E.tensor.STATIC_TENSOR), ('e', d, E.tensor.DYNAMIC_TENSOR)):
        E.check(x.name == nm and x.type == kind and np.dtype(x.dtype) == np.dtype(dt), f'{nm}: name, kind and element type')
        E.check(E.same(list(x.get_shape()), [3]), f'{nm}: shape')
    E.check(E.same(E.elems(t.numpy), v), 'the values')
    E.check(not E.call(g.add_initial, 'c', [1, 2]).ok and not E.call(g.add_dynamic, 'c', [1, 2]).ok and 'c' not in g.tensormap, 'anything but an array is refused')


RES = [o for _, _, res in net.SPEC for o in res]


def rest(E, N, left, outs, label):
    """the graph after taking nodes out"""
    g = N.g
    N.check_nodes(g, left, label)
    N.check_tables(g, left, label)
    E.check(list(g.output) == outs, f'{label}: the graph outputs that still have a producer stay, in order')
    g.graph_reorder_nodes()
    N.check_order(g, left, label)
    miss = [t for i in left for t in N.nodes[i][2] if t in N.made and N.made[t] not in left]
    if not miss:
        N.check_values(g, N.val, label)


def h_netremove(E, how, free, fix, outs, order):
    N = net.Net(E, free, outs, order, fix)
    i = E.choice('node', list(range(N.n)))
    gone = {i} if how == 'node' else {i} | N.behind(N.nodes[i][3])
    r = E.call(getattr(N.g, f'remove_{how}'), f'n{i}')
    if not r.ok:
        E.fail(f'remove_{how} raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    rest(E, N, [j for j in range(N.n) if j not in gone], [o for o in N.outs if N.made[o] not in gone], f'remove_{how}')


def h_netdangling(E, free, fix, order, first=None):
    o1 = E.choice('out1', RES)
    o2 = E.choice('out2', RES + [None])
    outs = [o1] + ([o2] if o2 is not None and o2 != o1 else [])
    N = net.Net(E, free, outs, order, fix)
    left = sorted(N.ahead(outs))
    if first is not None:
        k = f'n{first}'
        N.g.remove_node(k)
        if first in left:
            return
    r = E.call(N.g.remove_dangling_nodes)
    if not r.ok:
        E.fail(f'remove_dangling_nodes raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    rest(E, N, left, outs, 'remove_dangling_nodes')


def h_netskip(E, free, fix, outs, order, dangling):
    N = net.Net(E, free, outs, order, fix)
    i = E.choice('node', [1, 3, 7])
    src, res = N.nodes[i][2][0], N.nodes[i][3][0]
    E.assume(N.size[src] == N.size[res] or i == 3)
    if i == 1 and src == 'p1':
        return
    stays = res in N.outs and (src in N.outs or src in net.INPUTS)
    r = E.call(N.g.skip_node, f'n{i}')
    if not r.ok:
        E.fail(f'skip_node raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    left = [j for j in range(N.n) if j != i or stays]
    E.check(sorted(N.g.nodemap) == sorted(f'n{j}' for j in left), 'skip_node: exactly the other nodes stay')
    E.check(list(N.g.output) == N.outs, 'skip_node: the graph outputs keep their names')
    # every tensor is read and made by exactly the nodes that say so
    seen = {}
    for nm, nd in N.g.nodemap.items():
        for t in nd.input:
            seen.setdefault(t, set()).add(nm)
    for t in N.tensors:
        E.check(set(N.g.consumedby.get(t, [])) == seen.get(t, set()), f'skip_node: readers of {t}')
        E.check(list(N.g.producedby.get(t, [])) == [nm for nm, nd in N.g.nodemap.items() if t in nd.output], f'skip_node: producers of {t}')
    for j in left:
        a, b = N.g.nodemap[f'n{j}'], N.nodes[j]
        ren = {} if stays else ({src: res} if res in N.outs else {res: src})
        E.check(a.op_type == b[1] and list(a.input) == [ren.get(t, t) for t in b[2]] and list(a.output) == [ren.get(t, t) for t in b[3]], f'skip_node: n{j} reads and makes what it did')
    if dangling:
        N.g.remove_dangling_nodes()
    N.g.graph_reorder_nodes()
    N.check_values(N.g, N.val if stays else N.without(i, src), 'skip_node')


def h_netdump(E, free, fix, outs, order):
    N = net.Net(E, free, outs, order, fix)
    lists = [['p1'], ['t', 'p', 't10', 'b'], ['z', 'c', 't'], ['c', 'u', 'c', 'nobody', 'p/q'], ['t1', 't1', 'a'], ['a1', 't10', 'p', 'p/q', 'p1'], list(reversed(RES)), []]
    dump = E.choice('dump', lists)
    r = E.call(N.g.add_dump_tensors, list(dump))
    if not r.ok:
        E.fail(f'add_dump_tensors raises {type(r.exc).__name__}')
    want = list(N.outs)
    for t in dump:
        if t in N.made and t not in want:
            want.append(t)
    rest(E, N, list(range(N.n)), want, 'add_dump_tensors')
    r = E.call(N.g.remove_dangling_nodes)
    E.check(r.ok and sorted(N.g.nodemap) == sorted(f'n{j}' for j in N.ahead(want)), 'a dumped tensor keeps its producers')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    A3 = [[1, 1, 2], [1, 2, 1]] + ([[1, 2, 2], [2, 1, 2]] if th else [])
    O = ['Add', 'Sub', 'Mul']
    k = 0
    for outs in ([2], [0, 2], [1]):
        for ar in A3:
            tag = f'{"".join(map(str, outs))}-{"".join(map(str, ar))}'
            for rev in ((False, True) if th else (k % 2 == 1,)):
                r = '-rev' if rev else ''
                obs.append(Ob(f'dangling-{tag}{r}', h_dangling, dict(ops=O, outs=outs, rev=rev, ar=ar), weight=3))
                for i in range(3):
                    obs.append(Ob(f'remove-{i}-{tag}{r}', h_remove, dict(ops=O, outs=outs, i=i, rev=rev, ar=ar), weight=3))
                    obs.append(Ob(f'subtree-{i}-{tag}{r}', h_subtree, dict(ops=O, outs=outs, i=i, rev=rev, ar=ar), weight=3))
                    if ar[i] == 1:
                        obs.append(Ob(f'skip-{i}-{tag}{r}', h_skip, dict(ops=O, outs=outs, i=i, rev=rev, ar=ar), weight=3))
            k += 1
    obs += [Ob(f'skip-dangling-{i}', h_skip, dict(ops=O, outs=[2], i=i, rev=False, ar=[1, 1, 2], then='dangling'), weight=3) for i in (0, 1)]
    obs += [Ob(f'skip-part-{p}-{"end" if f else "mid"}', h_skip_part, dict(pos=p, final=f)) for p in range(3) for f in (True, False)]
    obs += [Ob(f'skip-not-{s}', h_skip_two, dict(second=s)) for s in ('in', 'out')] + [Ob(f'shapeops-{r}', h_shapeops, dict(reorder=r)) for r in (False, True)]
    obs += [Ob(f'dump-{"".join(d)}-{r}', h_dump, dict(ops=O, outs=[2], dump=d, rev=r, ar=[1, 1, 2])) for d, r in ((['t0'], False), (['t1', 't0', 't1'], True), (['t2', 't1'], False))]
    ords = ['same', 'rev', 'odd']
    for k in range(3 if not th else 6):
        w = dict(fix=k, outs=k % 3)
        for how in ('node', 'subtree'):
            obs.append(Ob(f'net-{how}-{k}', h_netremove, dict(how=how, free=[(1,), (2,), (3,)][k % 3] if not th else (1, 2, 3), order=ords[(k + 1) % 3], **w), weight=6))
        obs.append(Ob(f'net-dangling-{k}', h_netdangling, dict(fix=k, free=() if not th else (2,), order=ords[k % 3], first=[None, 6, 2][k % 3]), weight=6))
        obs.append(Ob(f'net-skip-{k}', h_netskip, dict(free=[(1,), (2, 3), (0, 1)][k % 3] if not th else (0, 1, 2), order=ords[(k + 2) % 3], dangling=k % 2 == 1, **w), weight=6))
        obs.append(Ob(f'net-dump-{k}', h_netdump, dict(free=(), order=ords[k % 3], **w), weight=4))
    obs += [Ob(f'add-{np.dtype(t).name}', h_add, dict(dt=t)) for t in (f32, i64)]
    return obs


BOUNDS = {'all': 'every wiring of 3 binary integer operators over an input and a weight with 4 free operands (5 thorough), one or two graph outputs, two listing '
                 'orders, each node removed/skipped/cut in turn; element values -20..20; one shape-operator chain with sizes 1..64; three dump lists; '
                 'an eight-node graph with three-result, four-operand and optional-operand nodes: each node removed, cut or skipped, every pair of outputs for the dangling nodes, eight dump lists; a node skipped after each of the three results of Split'}
OUTSIDE = 'larger graphs; skipping nodes whose only operand is constant; tensors captured by If/Loop bodies'
ASSUMPTIONS = ['tensor names are symbols of a finite pool compared by equality', 'integer element values, no wrap-around within the bounds']
