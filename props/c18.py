"""C18 - subgraph extraction: the parts have the right borders and compose to the whole."""
import os
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from . import c09
from .c15 import scratch, decode, node_of, same_node, info_of
from .c13 import FN
from .net import Net, subset, BASE

f32, i64 = np.float32, np.int64
LO, HI = -20, 20


class Wiring:
    """n binary integer operators over an input x and a weight w, listed in topological order (or backwards); every operand is any
    tensor available at that point"""

    def __init__(self, E, ops, outs, rev=False, ar=None, base=('x', 'w')):
        self.E, self.ops, self.n = E, ops, len(ops)
        n = self.n
        self.base = base = list(base)
        ar = ar or [2] * n          # how many operands are free; the others are the weight
        self.pool = pool = base + [f't{i}' for i in range(n)]
        self.c = c = lambda s: E.cname(pool, s)
        self.ins = []
        for i in range(n):
            row = [E.name(f'{k}{i}', pool) if j < ar[i] else c('w') for j, k in enumerate('ab')]
            for v in row:
                for j in range(i, n):
                    E.assume(E.no(E.t_eq(v, f't{j}')))
            self.ins.append(row)
        self.outs = [f't{i}' for i in outs]
        self.val = {k: [E.int(f'{k}{i}', LO, HI) for i in range(2)] for k in base}
        nodes = [out(op, f'n{i}', self.ins[i], [c(f't{i}')]) for i, op in enumerate(ops)]
        self.initnames = [k for k in base if k in 'wv']
        self.inputs = [k for k in base if k not in self.initnames]
        self.g = mkgraph(E, nodes[::-1] if rev else nodes, [(c(k), [2], i64) for k in self.inputs], [(c(o), None, i64) for o in self.outs],
                         [(c(k), E.array(self.val[k], i64)) for k in self.initnames])
        for i, op in enumerate(ops):
            self.val[f't{i}'] = FN[op](self.pick(self.ins[i][0], i), self.pick(self.ins[i][1], i))

    def pick(self, v, i):
        E, r = self.E, self.val[self.pool[0]]
        for k in self.pool[1:len(self.base) + i]:
            h = E.t_eq(v, k)
            r = [E.ite(h, a, b) for a, b in zip(self.val[k], r)]
        return r

    def reads(self, i, t):
        return self.E.any(*[self.E.t_eq(v, t) for v in self.ins[i]])

    def borders(self, sub):
        """tensor -> (is it an input of the subset, is it an output of it), as formulas"""
        E, n = self.E, self.n
        ins, outs = {}, {}
        for t in self.pool:
            made = t[0] == 't' and int(t[1:]) in sub
            if t not in self.initnames:
                ins[t] = False if made else E.any(*[self.reads(i, t) for i in sub])
            if made:
                rest = [self.reads(i, t) for i in range(n) if i not in sub]
                inner = [self.reads(i, t) for i in sub]
                outs[t] = True if t in self.outs else E.any(*rest, E.no(E.any(*inner))) if rest else E.no(E.any(*inner))
        return ins, outs


def check_borders(E, W, sub, gin, gout, label):
    ins, outs = W.borders(sub)
    for got, want, what in ((gin, ins, 'input'), (gout, outs, 'output')):
        E.check(len(set(got)) == len(got), f'{label}: no {what} twice')
        for t in W.pool:
            E.check(E.eq(want.get(t, False), W.c(t) in got), f'{label}: {t} is an {what}')


def check_order(E, W, g, sub, label):
    got = list(g.nodemap)
    E.check(sorted(got) == sorted(f'n{i}' for i in sub), f'{label}: exactly the requested nodes')
    pos = {k: i for i, k in enumerate(got)}
    for i in sub:
        if f'n{i}' not in pos:
            continue
        nd = g.nodemap[f'n{i}']
        E.check(nd.op_type == W.ops[i] and E.all(*[E.t_eq(a, b) for a, b in zip(nd.input, W.ins[i])]) and list(nd.output) == [W.c(f't{i}')],
                f'{label}: node n{i} is unchanged')
        for p in sub:
            if p != i and f'n{p}' in pos:
                E.check(E.any(E.no(W.reads(i, f't{p}')), pos[f'n{p}'] < pos[f'n{i}']), f'{label}: n{i} comes after its producers')


def run_part(E, W, g, known, label):
    """evaluates a part with the values computed so far; -> values of its outputs, checked against the whole"""
    feed = {}
    for t in g.input:
        k = str(t) if not E.sym else None
        hit = None
        for p in W.pool:
            if t == W.c(p):
                hit = p
        E.check(hit in known, f'{label}: its input {hit} is known by then')
        if hit not in known:
            return
        feed[W.c(hit)] = E.array(known[hit], i64)
    r = E.call(g.value_infer, feed)
    if not r.ok:
        E.fail(f'{label}: evaluating raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    for o, got in zip(list(g.output), r.val):
        for p in W.pool:
            if o == W.c(p):
                E.check(got is not None and E.same(E.elems(got), W.val[p]), f'{label}: value of {p}')
                if got is not None:
                    known[p] = E.elems(got)


def h_extract(E, ops, outs, sub, rev, ar=None):
    W = Wiring(E, ops, outs, rev, ar)
    names = [f'n{i}' for i in sub]
    r = E.call(W.g.get_iotensors, list(names))
    if not r.ok:
        E.fail(f'get_iotensors raises {type(r.exc).__name__}')
    check_borders(E, W, sub, *r.val, 'get_iotensors')
    r = E.call(W.g.get_iotensors, list(names), remove_initials=False)
    gin = r.val[0]
    for t in W.initnames:
        E.check(E.eq(E.any(*[W.reads(i, t) for i in sub]), W.c(t) in gin), f'weight {t} is listed when asked for')
    r = E.call(W.g.get_onnxgraph_by_nodenames, names[::-1] if rev else names)
    if not r.ok:
        E.fail(f'get_onnxgraph_by_nodenames raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    p = r.val
    inits = [t.name for t in p.initializer]
    for t in W.initnames:
        E.check(E.eq(E.any(*[W.reads(i, t) for i in sub]), W.c(t) in inits), f'weight {t} is included exactly when used')
    E.check(len(set(inits)) == len(inits), 'no weight twice')
    for t in p.initializer:
        for k in W.initnames:
            if t.name == W.c(k):
                dt, dims, vals = decode(E, t)
                E.check(dt == np.dtype(i64) and dims == [2] and E.same(vals, W.val[k]), f'weight {k} is the same')
    check_borders(E, W, sub, [t.name for t in p.input], [t.name for t in p.output], 'extracted graph')
    r = E.call(E.graph.Graph, p)
    if not r.ok:
        E.fail(f'Graph(subgraph) raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    g = r.val
    check_order(E, W, g, sub, 'subgraph')
    run_part(E, W, g, {k: v for k, v in W.val.items() if not (k[0] == 't' and int(k[1:]) in sub)}, 'subgraph')
    # the graph it was taken from is still whole
    E.check(sorted(W.g.nodemap) == sorted(f'n{i}' for i in range(W.n)), 'the original graph keeps its nodes')


def h_levels(E, ops, outs, frm, to, rev, ar=None):
    """get_subgraph: nodes behind `to` are level 2, other nodes behind `frm` level 1, the rest level 0"""
    W = Wiring(E, ops, outs, rev, ar)
    n = W.n

    def behind(tensors):
        r = []
        for i in range(n):
            r.append(E.any(*[W.reads(i, t) for t in tensors], *[E.all(r[j], W.reads(i, f't{j}')) for j in range(i)]))
        return r
    b2, b1 = behind(to), behind(frm)
    r = E.call(W.g.get_subgraph, [W.c(t) for t in frm], [W.c(t) for t in to])
    if not r.ok:
        E.fail(f'get_subgraph raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    lv = r.val
    E.check(len(lv) == 3, 'three levels')
    known = {k: W.val[k] for k in W.base}
    for i in range(n):
        k = f'n{i}'
        E.check(E.eq(b2[i], k in lv[2].nodemap), f'{k} is behind the output tensors: level 2')
        E.check(E.eq(E.all(b1[i], E.no(b2[i])), k in lv[1].nodemap), f'{k} is behind the input tensors only: level 1')
        E.check(sum(k in g.nodemap for g in lv) == 1, f'{k} is in exactly one level')
    for j, g in enumerate(lv):
        if not len(g.nodemap):
            continue
        check_order(E, W, g, [i for i in range(n) if f'n{i}' in g.nodemap], f'level {j}')
        run_part(E, W, g, known, f'level {j}')
    for o in W.outs:
        E.check(o in known and E.same(known[o], W.val[o]), f'graph output {o} is computed by the levels run in order')


def h_multi(E, sub, extra):
    """a node with two results (and an unused optional one), each read inside, outside or nowhere"""
    pool = ['x', 'a', 'b', 't1', 't2', '']
    c = lambda s: E.cname(pool, s)
    ins = [[c('x')], [E.name('p', pool), E.name('q', pool)], [E.name('r', pool), E.name('s', pool)]]
    for i, bad in ((1, ['t1', 't2', '']), (2, ['t2', '', 'x'])):
        for v in ins[i]:
            for b in bad:
                E.assume(E.no(E.t_eq(v, b)))
    outs = [[c('a'), c(''), c('b')], [c('t1')], [c('t2')]]
    g = mkgraph(E, [out('Custom', f'n{i}', ins[i], outs[i]) for i in range(3)], [(c('x'), [2], f32)], [(c(o), [2], f32) for o in ['t2'] + extra])
    r = E.call(g.get_iotensors, [f'n{i}' for i in sub])
    if not r.ok:
        E.fail(f'get_iotensors raises {type(r.exc).__name__}')
    gin, gout = r.val
    made = {'a': 0, 'b': 0, 't1': 1, 't2': 2}
    for t in pool[:-1]:
        inner = E.any(*[E.t_eq(v, t) for i in sub for v in ins[i]])
        rest = E.any(*[E.t_eq(v, t) for i in range(3) if i not in sub for v in ins[i]], False)
        here = made.get(t) in sub
        E.check(E.eq(False if here else inner, c(t) in gin), f'{t} is an input')
        E.check(E.eq((True if t in ['t2'] + extra else E.any(rest, E.no(inner))) if here else False, c(t) in gout), f'{t} is an output')
    E.check(c('') not in gin and c('') not in gout and len(set(gin)) == len(gin) and len(set(gout)) == len(gout), 'each tensor once, absent ones never')


def h_unary(E):
    """weights read by nodes with one operand, with an omitted operand, or by several nodes at once"""
    v = [E.int(f'v{i}', LO, HI) for i in range(2)]
    w = [E.int(f'w{i}', LO, HI) for i in range(2)]
    u = [E.int(f'u{i}', LO, HI) for i in range(2)]
    nodes = [out('Neg', 'n0', ['v'], ['a']), out('Identity', 'n1', ['w'], ['b']), out('Sum', 'n2', ['x', 'a', 'b'], ['c']), out('Neg', 'n3', ['v'], ['d']),
             out('Sum', 'n4', ['c', 'd', 'u', 'w'], ['y']), out('Clip', 'n5', ['y', '', 'm'], ['z'])]
    inits = {'v': v, 'w': w, 'u': u, 'm': None}
    m = E.int('m', LO, HI)
    g = mkgraph(E, nodes, [('x', [2], i64)], [('z', None, i64)], [(k, E.array(m if k == 'm' else t, i64)) for k, t in inits.items()], constant_folding=False)
    sub = [f'n{i}' for i in range(6) if E.choice(f's{i}', [False, True])]
    if not sub:
        return
    ins = {n[1]: [i for i in n[2] if i] for n in nodes}
    made = [n[3][0] for n in nodes if n[1] in sub]
    r = E.call(g.get_onnxgraph_by_nodenames, list(sub))
    if not r.ok:
        E.fail(f'get_onnxgraph_by_nodenames raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    p = r.val
    need = sorted({i for k in sub for i in ins[k] if i in inits})
    E.check(sorted(t.name for t in p.initializer) == need, 'exactly the weights the part reads')
    for t in p.initializer:
        dt, dims, vals = decode(E, t)
        E.check(dt == np.dtype(i64) and E.same(vals, [m] if t.name == 'm' else inits[t.name]), f'weight {t.name}')
    E.check(sorted(t.name for t in p.input) == sorted({i for k in sub for i in ins[k] if i not in inits and i not in made}), 'inputs of the part')


# ---- model_subgraph: files
def files_model(E):
    nodes = [out('Conv', 'c0', ['x', 'w0', 'b0'], ['a'], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1], dilations=[1, 1], group=1),
             out('Relu', 'r0', ['a'], ['r']), out('Conv', 'c1', ['r', 'w1'], ['b'], kernel_shape=[1, 1], strides=[1, 1], pads=[0, 0, 0, 0], dilations=[1, 1], group=1),
             out('Add', 'ad', ['b', 'r'], ['s']), out('Clip', 'cl', ['s', '', 'mx'], ['q']), out('GlobalAveragePool', 'gp', ['q'], ['g']),
             out('Flatten', 'fl', ['g'], ['y'], axis=1)]
    w = {'w0': (4, 3, 3, 3), 'b0': (4,), 'w1': (4, 4, 1, 1)}
    vals = {k: E.opaque(list(s), f32, 0) for k, s in w.items()}
    mx = E.int('mx', 1, 9)
    inits = [init(E, k, E.array(np.arange(int(np.prod(s)), dtype=f32).reshape(s), f32)) for k, s in w.items()] + [('mx', E.array(mx, f32))]
    return nodes, w, mx, inits


GROUPS = {'levels': (['r'], ['s'], [['c0', 'r0'], ['c1', 'ad'], ['cl', 'gp', 'fl']]),
          'skip': (['a'], ['b'], [['c0'], ['r0', 'c1'], []]),
          'head': (['x'], ['q'], [[], ['c0', 'r0', 'c1', 'ad', 'cl'], ['gp', 'fl']])}
GROUPS['skip'] = (['a'], ['b'], [['c0'], ['r0', 'c1'], ['ad', 'cl', 'gp', 'fl']])
PARTS = {'one': ['c0'], 'tail': ['fl', 'gp', 'cl'], 'mid': ['ad', 'r0', 'c1']}
BORDER = {('c0',): (['x'], ['a']), ('cl', 'fl', 'gp'): (['s'], ['y']), ('ad', 'c1', 'r0'): (['a'], ['s']), ('c0', 'r0'): (['x'], ['r']),
          ('ad', 'c1'): (['r'], ['s']), ('c1', 'r0'): (['a'], ['b', 'r']), ('ad', 'cl', 'fl', 'gp'): (['b', 'r'], ['y']),
          ('ad', 'c0', 'c1', 'cl', 'r0'): (['x'], ['q']), ('fl', 'gp'): (['q'], ['y'])}
USES = {'c0': ['b0', 'w0'], 'c1': ['w1'], 'cl': ['mx']}


def h_files(E, kind, how):
    nodes, w, mx, inits = files_model(E)
    h_, w_ = E.int('h', 4, 256), E.int('w', 4, 256)
    m = model(E, nodes, [('x', [1, 3, h_, w_], f32)], [('y', None, f32)], inits)
    m.ir_version = 8
    m.opset_import[0].version = 13
    op = onnx_of(E)
    k = lambda v: (v - 1) // 2 + 1
    full = [1, 4, k(h_), k(w_)]
    want = {'x': [1, 3, h_, w_], 'a': full, 'r': full, 'b': full, 's': full, 'q': full, 'g': [1, 4, 1, 1], 'y': [1, 4]}
    infos = [(t, s, f32) for t, s in want.items() if t not in ('x', 'y')]
    m = model(E, nodes, [('x', want['x'], f32)], [('y', want['y'], f32)], inits, infos)
    m.ir_version = 8
    m.opset_import[0].version = 13
    with scratch(E) as d:
        src = os.path.join(d, 'net.onnx')
        op.save_model(m, src)
        if how == 'nodes':
            groups, names = [PARTS[kind]], ['net_subgraph.onnx']
            r = E.call(E.m('').model_subgraph, src, nodenames=list(PARTS[kind]), save_folder=d)
        else:
            a, b, groups = GROUPS[kind]
            names = [f'net_level{i}.onnx' for i in range(3)]
            r = E.call(E.m('').model_subgraph, src, a, b, save_folder=d)
        if not r.ok:
            E.fail(f'model_subgraph raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        for grp, fn in zip(groups, names):
            p = os.path.join(d, fn)
            there = p in E_files(E, d)
            E.check(there == bool(grp), f'{fn} is written exactly when it has nodes')
            if not there or not grp:
                continue
            s = op.load_model(p)
            E.check(s.ir_version == 8 and [o.version for o in s.opset_import] == [13], f'{fn}: versions')
            E.check(sorted(n.name for n in s.graph.node) == sorted(grp), f'{fn}: nodes')
            orig = {n.name: n for n in m.graph.node}
            for n in s.graph.node:
                if n.name in orig:
                    same_node(E, node_of(E, n), node_of(E, orig[n.name]), fn)
            ti, to = BORDER[tuple(sorted(grp))]
            E.check(sorted(t.name for t in s.graph.input) == ti and sorted(t.name for t in s.graph.output) == to, f'{fn}: inputs and outputs')
            for t in list(s.graph.input) + list(s.graph.output):
                dt, dims = info_of(E, t)
                E.check(dt == 1 and E.same(dims, want[t.name]), f'{fn}: declared shape of {t.name}')
            need = sorted(x for n in grp for x in USES.get(n, []))
            E.check(sorted(t.name for t in s.graph.initializer) == need, f'{fn}: weights')
            for t in s.graph.initializer:
                dt, dims, vals = decode(E, t)
                if t.name == 'mx':
                    E.check(dims == [] and E.same(vals, [mx]), f'{fn}: {t.name}')
                else:
                    E.check(dt == np.dtype(f32) and dims == list(w[t.name]) and vals == list(range(len(vals))), f'{fn}: {t.name}')
            g = E.graph.Graph(s.graph, E.m('utils').ModelConfig({}))
            r = E.call(g.shape_infer, None)
            if not r.ok:
                E.fail(f'{fn}: shape inference raises {str(r.exc)[:80]}')
            check_tensors(E, g, {t: want[t] for n in grp for t in next(x for x in nodes if x[1] == n)[3]}, fn)


# ---- a larger graph: several results, omitted and many operands, similar names
def h_net(E, free, fix, outs, order, sub):
    N = Net(E, free, outs, order, fix)
    if sub is None:
        sub = subset(E, N.n)
    names = [f'n{i}' for i in sub]
    for wt in (False, True):
        r = E.call(N.g.get_iotensors, list(names), **({'remove_initials': False} if wt else {}))
        if not r.ok:
            E.fail(f'get_iotensors raises {type(r.exc).__name__}')
        for got, want, what in zip(r.val, N.borders(sub, wt), ('inputs', 'outputs')):
            E.check(sorted(got) == sorted(want), f'{what} of the part{" with weights" if wt else ""}, each once')
    r = E.call(N.g.get_onnxgraph_by_nodenames, names[::-1] if order == 'rev' else names)
    if not r.ok:
        E.fail(f'get_onnxgraph_by_nodenames raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    p = r.val
    ins, outs_ = N.borders(sub)
    for got, want, what in ((p.input, ins, 'inputs'), (p.output, outs_, 'outputs')):
        E.check(sorted(t.name for t in got) == sorted(want), f'{what} of the extracted graph')
        for t in got:
            if t.name in BASE or t.name in N.outs:
                E.check(info_of(E, t) == (7, [N.size[t.name]]), f'declaration of {t.name}')
    E.check(sorted(t.name for t in p.initializer) == N.uses(sub), 'exactly the weights used')
    for t in p.initializer:
        dt, dims, vals = decode(E, t)
        E.check(dt == np.dtype(i64) and dims == ([BASE[t.name]] if BASE[t.name] else []) and E.same(vals, N.val[t.name]), f'weight {t.name}')
    r = E.call(E.graph.Graph, p)
    if not r.ok:
        E.fail(f'Graph(part) raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    g = r.val
    N.check_nodes(g, sub, 'part')
    N.check_order(g, sub, 'part')
    E.check(sorted(g.input) == sorted(ins) and sorted(g.output) == sorted(outs_), 'borders of the part')
    N.check_values(g, N.val, 'part', N.feed(g.input))
    N.check_nodes(N.g, range(N.n), 'the original graph')
    N.check_tables(N.g, range(N.n), 'the original graph')
    E.check(sorted(N.g.output) == sorted(N.outs), 'outputs of the original graph')


CUTS = [(['x'], ['t1']), (['x', 'x1'], ['t']), (['p', 'p/q', 'p1'], ['t1']), (['t'], ['a', 'b', 'a1']), (['p1'], ['t10']), (['p'], ['u']), (['x1'], ['p']), (['t1'], ['a1']), (['x', 'x1'], ['z', 'c']), (['x'], ['x'])]


def h_netlevels(E, free, fix, outs, order):
    N = Net(E, free, outs, order, fix)
    frm, to = E.choice('cut', CUTS)
    l2 = N.behind(to)
    l1 = N.behind(frm) - l2
    want = [[i for i in range(N.n) if i not in l1 and i not in l2], sorted(l1), sorted(l2)]
    r = E.call(N.g.get_subgraph, list(frm), list(to))
    if not r.ok:
        E.fail(f'get_subgraph raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    known = {k: N.val[k] for k in BASE}
    for j, g in enumerate(r.val):
        E.check(sorted(g.nodemap) == [f'n{i}' for i in want[j]], f'nodes of level {j}')
        if not want[j]:
            continue
        N.check_nodes(g, want[j], f'level {j}')
        N.check_order(g, want[j], f'level {j}')
        ins, outs_ = N.borders(want[j])
        E.check(sorted(g.input) == sorted(ins) and sorted(g.output) == sorted(outs_), f'borders of level {j}')
        if all(t in known for t in g.input):
            got = N.check_values(g, N.val, f'level {j}', N.feed(g.input, known))
            known.update({t: E.elems(v) for t, v in got.items()})
    for o in N.outs:
        if any(o in N.nodes[i][3] for i in sum(want, [])):
            E.check(o in known, f'graph output {o} is made by the levels run in order')


def E_files(E, d):
    if E.sym:
        from symex import fonnx
        return set(fonnx.FILES)
    return {os.path.join(d, f) for f in os.listdir(d)}


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    obs.append(Ob('unary', h_unary, {}))
    AR = {2: [[2, 2]], 3: [[1, 1, 2], [1, 2, 1]] + ([[1, 2, 2]] if th else [])}
    for n, subs in ((2, [(0,), (1,), (0, 1)]), (3, [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)])):
        for si, sub in enumerate(subs):
            for oi, outs in enumerate(([n - 1], [0, n - 1])):
                for ai, ar in enumerate(AR[n]):
                    for rev in ((False, True) if th or n == 2 else ((si + oi + ai) % 2 == 1,)):
                        obs.append(Ob(f'extract{n}-{"".join(map(str, sub))}-out{"".join(map(str, outs))}-{"".join(map(str, ar))}{"-rev" if rev else ""}', h_extract,
                                      dict(ops=['Add', 'Sub', 'Mul'][:n], outs=outs, sub=list(sub), rev=rev, ar=ar), weight=n))
    for fi, (frm, to) in enumerate(((['x'], ['t0']), (['t0'], ['t1']), (['x'], ['t1']), (['t0'], ['t0']), (['x', 't0'], ['t2']), (['t1'], ['t0']))):
        for ai, ar in enumerate(AR[3]):
            for rev in ((False, True) if th else ((fi + ai) % 2 == 1,)):
                obs.append(Ob(f'levels-{"".join(frm)}-{"".join(to)}-{"".join(map(str, ar))}{"-rev" if rev else ""}', h_levels,
                              dict(ops=['Sub', 'Add', 'Mul'], outs=[2], frm=frm, to=to, rev=rev, ar=ar), weight=5))
    obs += [Ob(f'multi-{"".join(map(str, sub))}-{"".join(x)}', h_multi, dict(sub=list(sub), extra=x)) for sub in ((0,), (1,), (0, 1), (0, 2), (1, 2), (0, 1, 2)) for x in ([], ['a'], ['a', 't1'])]
    obs += [Ob(f'files-{k}', h_files, dict(kind=k, how='tensors')) for k in GROUPS] + [Ob(f'files-nodes-{k}', h_files, dict(kind=k, how='nodes')) for k in PARTS]
    for fix in range(2 if not th else 6):
        for oi in range(3):
            obs.append(Ob(f'net-parts-{fix}-{oi}', h_net, dict(free=(), fix=fix, outs=oi, order=['same', 'rev', 'odd'][(fix + oi) % 3], sub=None), weight=4))
    for k, (sub, oi, order) in enumerate((([2, 4, 5], 1, 'same'), ([0, 3, 6], 2, 'odd'), ([1, 2, 3, 4, 5, 7], 0, 'rev'), ([4, 6], 1, 'odd'), ([5], 2, 'same'))):
        obs.append(Ob(f'net-wiring-{k}', h_net, dict(free=(2, 3) if not th else (1, 2, 3), fix=k, outs=oi, order=order, sub=sub), weight=4))
    for k in range(3):
        obs.append(Ob(f'net-levels-{k}', h_netlevels, dict(free=[(0,), (1,), (2,)][k] if not th else [(0, 1), (1, 2), (2, 3)][k], fix=k, outs=k, order=['same', 'odd', 'rev'][k]), weight=4))
    return obs


BOUNDS = {'all': 'every wiring of 2 binary operators over an input and a weight, and of 3 with 4 free operands (5 thorough), every subset of nodes, with one or two graph '
                 'outputs, in two listing orders; element values -20..20; six cut pairs for get_subgraph; every wiring of a two-result node with two consumers; '
                 'an eight-node graph with three-result, four-operand and optional-operand nodes: all 255 parts, several wirings, ten cuts; '
                 'six cuts of a seven-node CNN saved to files, sizes 4..256'}
OUTSIDE = 'larger graphs; tensors captured by If/Loop bodies'
ASSUMPTIONS = ['tensor names are symbols of a finite pool compared by equality', 'integer element values, no wrap-around within the bounds']
