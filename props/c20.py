"""C20 - fusion: pattern search finds exactly what is described, and fusing keeps borders, attributes and values."""
import os
import itertools
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c13 import FN
from .c15 import scratch, node_of, decode, attr_value, attr_of, same_attr, AP
from .c18 import Wiring, LO, HI
from . import net

f32, i64 = np.float32, np.int64


# ---- search
def serial(ops):
    return ('serial', ops, [(i, -1, i + 1, -1) for i in range(len(ops) - 1)])


def descs(ops, links, attrs={}, one_sided=False):
    ds = [{'name': f'd{i}', 'op': op, 'attrs': attrs.get(i, []), 'inport': [], 'outport': []} for i, op in enumerate(ops)]
    for a, o, b, i in links:
        ds[a]['outport'].append([o, f'd{b}', i])
        ds[b]['inport'].append([i, f'd{a}', o])
    return ds


def is_op(want, op):
    return want == 'Any' or op == want or (isinstance(want, list) and op in want)


PATTERNS = {
    's2': serial(['Add', 'Sub']),
    's2same': serial(['Add', 'Add']),
    's3': serial(['Add', 'Sub', 'Mul']),
    'port0': ('ports', ['Add', 'Sub'], [(0, 0, 1, 0)]),
    'port1': ('ports', ['Add', 'Sub'], [(0, 0, 1, 1)]),
    'any': ('ports', ['Any', ['Sub', 'Mul']], [(0, 0, 1, 0)]),
    'list': ('ports', [['Sub', 'Mul'], ['Mul', 'Sub']], [(0, -1, 1, -1)]),
    'diamond': ('ports', ['Add', 'Sub', 'Mul'], [(0, 0, 1, 0), (0, 0, 2, 0), (1, 0, 2, 1)]),
    'fork': ('ports', ['Add', 'Sub', 'Mul'], [(0, 0, 1, 0), (0, 0, 2, 0)]),
    'join': ('ports', ['Add', 'Sub', 'Mul'], [(0, 0, 2, 0), (1, 0, 2, 1)]),
    'late': ('ports', ['Mul', 'Add'], [(1, 0, 0, 0)]),      # the first description is the consumer
}


def linked(E, W, a, b, i):
    """does node b read the result of node a (as operand i, or any for -1)"""
    t = f't{a}'
    return W.reads(b, t) if i == -1 else E.t_eq(W.ins[b][i], t)


def h_search(E, pat, ops, inplace, rev, ar):
    W = Wiring(E, ops, [len(ops) - 1], rev, ar)
    kind, want, links = PATTERNS[pat]
    F = E.m('fusion')
    P = F.createSerialPattern(list(want)) if kind == 'serial' and not inplace else F.FusionPattern(
        F.createSerialOpChain(list(want)) if kind == 'serial' else descs(want, links), inplace_fusion=inplace)
    r = E.call(P.search_pattern, W.g)
    if not r.ok:
        E.fail(f'search_pattern raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    search_ok(E, W, want, links, inplace, r.val)


def search_ok(E, W, want, links, inplace, found):
    used = [n for m in found for n in m]
    E.check(len(set(used)) == len(used), 'no node is used twice')
    E.check(all(len(m) == len(want) and all(n in W.g.nodemap for n in m) for m in found), 'one node per description')

    def cond(m, strict):
        c = []
        for a, o, b, i in links:
            c.append(linked(E, W, m[a], m[b], i))
            if inplace:
                n = sum(E.ite(E.t_eq(v, f't{m[a]}'), 1, 0) for row in W.ins for v in row)
                c.append(n == 1 if strict else E.all(*[E.no(W.reads(k, f't{m[a]}')) for k in range(W.n) if k != m[b]]))
        return E.all(*c, True)
    for m in found:
        m = [int(n[1:]) for n in m]
        E.check(all(is_op(w, W.ops[k]) for w, k in zip(want, m)), 'operators are as described')
        E.check(cond(m, False), 'every described link is there')
    free = [i for i in range(W.n) if f'n{i}' not in used]
    for m in itertools.permutations(free, len(want)):
        if all(is_op(w, W.ops[k]) for w, k in zip(want, m)):
            E.check(E.no(cond(m, True)), f'an occurrence {m} is not missed')


def h_outport(E, inplace):
    """links from one of several results of a node to one of several operands of another"""
    pool = ['x', 'p0', 'p1', 'p2', 'y0', 'y1', 'z']
    c = lambda s: E.cname(pool, s)
    o, i = E.choice('outport', [-1, 0, 1, 2]), E.choice('inport', [-1, 0, 1])
    ins = [[c(E.choice(f'{k}{j}', pool[:4])) if k == 'a' or j else c('x') for j in range(2)] for k in 'ab']
    g = mkgraph(E, [out('Split', 's', [c('x')], [c('p0'), c('p1'), c('p2')], axis=0), out('Sub', 'a', ins[0], [c('y0')]), out('Sub', 'b', ins[1], [c('y1')]), out('Add', 'e', [c('y0'), c('y1')], [c('z')])],
                [(c('x'), [6], i64)], [(c('z'), None, i64)])
    r = E.call(E.m('fusion').FusionPattern(descs(['Split', 'Sub'], [(0, o, 1, i)]), inplace_fusion=inplace).search_pattern, g)
    if not r.ok:
        E.fail(f'search_pattern raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    found = [list(m) for m in r.val]
    E.check(found in ([], [['s', 'a']], [['s', 'b']]), 'at most one match')
    uses = {t: sum(E.ite(E.t_eq(v, t), 1, 0) for row in ins for v in row) for t in pool[1:4]}

    def holds(k, strict):
        row, other = ins['ab'.index(k)], ins[1 - 'ab'.index(k)]
        alone = lambda t: (uses[t] == 1 if strict else E.all(*[E.no(E.t_eq(v, t)) for v in other])) if inplace else True
        return E.any(*[E.all(E.t_eq(v, f'p{q}'), alone(f'p{q}')) for j, v in enumerate(row) if i in (-1, j) for q in range(3) if o in (-1, q)])
    for k in 'ab':
        if ['s', k] in found:
            E.check(holds(k, False), f'the link to {k} is there')
        elif not found:
            E.check(E.no(holds(k, True)), f'the link to {k} is not missed')


def h_descs(E, sub, ops, ar):
    """descriptions made from nodes of the graph find these nodes again"""
    W = Wiring(E, ops, [len(ops) - 1], False, ar)
    F = E.m('fusion')
    names = [f'n{i}' for i in sub]
    r = E.call(F.create_descs_from_nodenames, W.g, list(names))
    if not r.ok:
        E.fail(f'create_descs_from_nodenames raises {type(r.exc).__name__}')
    d = r.val
    E.check([x['name'] for x in d] == names and [x['op'] for x in d] == [ops[i] for i in sub], 'one description per node, in order')
    links = []
    for x, a in enumerate(sub):
        for y, b in enumerate(sub):
            for i in range(2):
                is_l = E.t_eq(W.ins[b][i], f't{a}')
                E.check(E.eq(is_l, [0, f'n{b}', i] in d[x]['outport']), 'outgoing links')
                E.check(E.eq(is_l, [i, f'n{a}', 0] in d[y]['inport']), 'incoming links')
                if [0, f'n{b}', i] in d[x]['outport']:
                    links.append((x, 0, y, i))
    E.check(sum(len(x['outport']) for x in d) == len(links) == sum(len(x['inport']) for x in d), 'no other links')
    # connected?
    seen = {0}
    for _ in sub:
        seen |= {b for a, _, b, _ in links if a in seen} | {a for a, _, b, _ in links if b in seen}
    r = E.call(F.FusionPattern(d).search_pattern, W.g)
    if not r.ok:
        E.fail(f'search_pattern raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    if len(seen) == len(sub):
        search_ok(E, W, [ops[i] for i in sub], links, False, r.val)
        E.check(len(r.val) > 0, 'the nodes themselves match')
    else:
        E.check(all(all(n in W.g.nodemap for n in m) for m in r.val), 'matches name nodes')


def h_attr(E, case):
    """attribute conditions"""
    F = E.m('fusion')
    v, n = E.int('v', -50, 50), E.int('n', -50, 50)
    cmp = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '==': lambda a, b: a == b}
    if case == 'scalar':
        nd = E.mknode('Softmax', {'axis': v})
        for k, f in cmp.items():
            E.check(E.eq(f(v, n), F.AttrExpr(['axis', k, n])(nd)), f'attr {k} number')
    elif case == 'real':
        a, b = E.real('a', -50, 50), E.real('b', -50, 50)
        nd = E.mknode('LeakyRelu', {'alpha': a})
        E.assume(E.any(a == b, a - b > 0.01, b - a > 0.01))
        for k, f in cmp.items():
            E.check(E.eq(f(a, b), F.AttrExpr(['alpha', k, b])(nd)), f'attr {k} number')
    elif case == 'list':
        w = E.int('w', -50, 50)
        nd = E.mknode('Transpose', {'perm': [v, w]})
        for k, f in cmp.items():
            for i, x in enumerate((v, w)):
                E.check(E.eq(f(x, n), F.AttrExpr(['perm', k, i, n])(nd)), f'element {i} of attr {k} number')
    elif case == 'short':
        nd = E.mknode('Transpose', {'perm': [v]})
        for k in cmp:
            r = E.call(F.AttrExpr(['perm', k, 1, n]), nd)
            E.check(r.ok and r.val is False, 'an element that is not there does not match')
    elif case == 'missing':
        nd = E.mknode('Relu')
        for k in cmp:
            r = E.call(F.AttrExpr(['alpha', k, n]), nd)
            E.check(r.ok and r.val is False, 'an attribute that is not there does not match')
    elif case == 'several':
        lo, hi = E.int('lo', -50, 50), E.int('hi', -50, 50)
        h = E.int('h', 1, 9)
        g = mkgraph(E, [out('Softmax', 's', ['x'], ['y'], axis=v), out('Relu', 'r', ['y'], ['z'])], [('x', [h], f32)], [('z', [h], f32)])
        for op, same in (('Softmax', True), (['Relu', 'Softmax'], True), ('Any', True), ('Relu', False), (['Relu', 'Add'], False)):
            P = F.FusionPattern([{'name': 'a', 'op': op, 'attrs': [['axis', '>=', lo], ['axis', '<', hi]], 'inport': [], 'outport': []}])
            r = E.call(P.search_pattern, g)
            if not r.ok:
                E.fail(f'search_pattern raises {type(r.exc).__name__}')
            E.check(E.eq(E.all(same, v >= lo, v < hi), r.val == [['s']]) and (r.val == [['s']] or r.val == []), 'found exactly when the operator and all conditions hold')


# ---- fuse
def tables(E, g, pool, c):
    for t in pool:
        E.check(sorted(set(g.consumedby.get(c(t), []))) == sorted(n for n in g.nodemap if c(t) in g.nodemap[n].input), f'consumer table of {t}')
        E.check(list(g.producedby.get(c(t), [])) == [n for n in g.nodemap if c(t) in g.nodemap[n].output], f'producer table of {t}')


def fused_ok(E, W, g, sub, name, op, label):
    E.check(sorted(g.nodemap) == sorted([f'n{i}' for i in range(W.n) if i not in sub] + [name]), f'{label}: the fused node replaces exactly the given nodes')
    nd = g.nodemap[name]
    E.check(nd.op_type == op and nd.name == name, f'{label}: operator and name')
    ins, outs = W.borders(sub)
    for t in W.pool:
        if t in W.initnames:
            want = E.any(*[W.reads(i, t) for i in sub])
        else:
            want = ins.get(t, False)
        E.check(E.eq(want, W.c(t) in nd.input), f'{label}: {t} is an input of the fused node')
        E.check(E.eq(outs.get(t, False), W.c(t) in nd.output), f'{label}: {t} is an output of the fused node')
    E.check(len(set(nd.input)) == len(nd.input) and len(set(nd.output)) == len(nd.output), f'{label}: each tensor once')
    E.check([str(o) if not E.sym else o for o in g.output] == [W.c(o) for o in W.outs], f'{label}: the graph outputs stay')
    E.check(list(nd.proto.input) == list(nd.input) and list(nd.proto.output) == list(nd.output), f'{label}: the node to be saved has the same inputs and outputs')
    for i in range(W.n):
        if i not in sub and f'n{i}' in g.nodemap:
            o = g.nodemap[f'n{i}']
            E.check(o.op_type == W.ops[i] and E.all(*[E.t_eq(a, b) for a, b in zip(o.input, W.ins[i])]) and list(o.output) == [W.c(f't{i}')], f'{label}: n{i} is unchanged')
    tables(E, g, W.pool, W.c)
    return nd


def convex(E, W, sub):
    """no path leaves the set and comes back"""
    out_dep = [False] * W.n       # depends on a member through a non-member
    c = []
    for i in range(W.n):
        if i in sub:
            c += [E.no(E.all(out_dep[j], W.reads(i, f't{j}'))) for j in range(i) if j not in sub]
        else:
            out_dep[i] = E.any(*[W.reads(i, f't{j}') for j in range(i) if j in sub], *[E.all(out_dep[j], W.reads(i, f't{j}')) for j in range(i) if j not in sub], False)
    return E.all(*c, True)


def run_fused(E, W, g, nd, sub, label):
    """the graph with the fused node computing what its parts did yields the same outputs"""
    def value_infer(intensors, outtensors):
        E.check(len(intensors) == len(nd.input) and len(outtensors) == len(nd.output), f'{label}: the fused node gets its tensors')
        v = {}
        for p in W.pool:
            for t, n in zip(intensors, nd.input):
                if n == W.c(p):
                    v[p] = E.elems(t.get_numpy())
        for i in sub:
            a = []
            for k in W.ins[i]:
                a.append(next(v[p] for p in W.pool if p in v and k == W.c(p)))
            v[f't{i}'] = FN[W.ops[i]](*a)
        for p in W.pool:
            for t, n in zip(outtensors, nd.output):
                if n == W.c(p):
                    t.update_tensor(E.array(v[p], i64))
    nd.value_infer = value_infer
    r = E.call(g.graph_reorder_nodes)
    E.check(r.ok and len(g.nodemap) == W.n - len(sub) + 1, f'{label}: every node is still reachable in order')
    r = E.call(g.value_infer, {W.c('x'): E.array(W.val['x'], i64)})
    if not r.ok:
        E.fail(f'{label}: value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    for o, got in zip(W.outs, r.val):
        E.check(got is not None and E.same(E.elems(got), W.val[o]), f'{label}: value of {o}')


def h_fuse(E, ops, outs, sub, rev, ar, how):
    W = Wiring(E, ops, outs, rev, ar)
    E.assume(convex(E, W, sub))
    g = W.g
    names = [f'n{i}' for i in sub]
    if how == 'subgraph':
        name, op = 'fused', 'Blk'
        r = E.call(g.fuse_subgraph_node_names, list(names), 'Blk', 'fused')
    elif how == 'samename':
        name, op = names[0], 'Blk'
        r = E.call(g.fuse_subgraph_node_names, list(names), 'Blk', names[0], False)
    else:
        name, op = names[0], ops[sub[0]]
        r = E.call(g.fuse_postop_node_names, list(names), True)
    if not r.ok:
        E.fail(f'fusing raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    nd = fused_ok(E, W, g, sub, name, op, how)
    run_fused(E, W, g, nd, sub, how)


KINDS = ('int', 'float', 'ints', 'floats', 'string', 'strings', 'tensor-f32', 'tensor-i64', 'tensor-f16', 'tensor-u8', 'graph', 'empty-ints', 'empty-floats', 'empty-strings')


def h_attrkinds(E, kind, how):
    """an attribute of any type, also one changed or added after loading, is kept with its type and value when its node is fused"""
    ox = onnx_of(E)
    nodes = [out('Neg', 'a', ['x'], ['t']), out('Custom', 'b', ['t'], ['u'], other=3), out('Relu', 'c', ['u'], ['y'])]
    if kind.startswith('empty'):
        att = ox.AttributeProto(name='att', type={'empty-ints': AP.INTS, 'empty-floats': AP.FLOATS, 'empty-strings': AP.STRINGS}[kind])
    else:
        att = ox.helper.make_attribute('att', attr_value(E, kind))
    want = attr_of(E, att)
    p = proto(E, nodes, [('x', [2], f32)], [('y', None, f32)])
    p.node[1].attribute.append(att)
    p.node[1].domain = 'my.ops'
    g = E.graph.Graph(p, E.m('utils').ModelConfig({}))
    edited = E.choice('edited', [False, True]) and not kind.startswith('empty')
    if edited:
        v = E.int('v', -9, 9)
        g.nodemap['b'].set_attr('other', v)
        g.nodemap['b'].set_attr('fresh', [v, 2])
    if how == 'sub':
        r, pre, name = E.call(g.fuse_subgraph_node_names, ['a', 'b'], 'Blk', 'f'), 'Custom1_', 'f'
    elif how == 'post':
        r, pre, name = E.call(g.fuse_postop_node_names, ['a', 'b'], True), 'postop_0_', 'a'
    else:
        r, pre, name = E.call(g.fuse_postop_node_names, ['b', 'c'], True), '', 'b'
    if not r.ok:
        E.fail(f'fusing raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    fused = g.nodemap[name].make_nodeproto()
    E.check(how != 'main' or fused.domain == 'my.ops', 'operator domain')
    got = {a.name: attr_of(E, a) for a in fused.attribute}
    names = [pre + 'att', pre + 'other'] + ([pre + 'fresh'] if edited else []) + ([] if how == 'sub' else ['postop_0', 'postop_count'])
    E.check(sorted(got) == sorted(names), 'names of the attributes')
    if pre + 'att' in got:
        same_attr(E, got[pre + 'att'], want, kind)
    if pre + 'other' in got:
        same_attr(E, got[pre + 'other'], (AP.INT, v if edited else 3), 'other')
    if edited and pre + 'fresh' in got:
        same_attr(E, got[pre + 'fresh'], (AP.INTS, [v, 2]), 'fresh')


def attrs_of(E, nd):
    return {k: v[1] for k, v in node_of(E, nd.proto)['attrs'].items()}


def h_attrs(E, how):
    """the attributes of the parts are kept under OPk_name / postop_k_name"""
    h = E.int('h', 1, 64)
    p, q = [E.int(f'p{i}', 0, 3) for i in range(4)], [E.int(f'q{i}', 0, 3) for i in range(4)]
    a, ax = E.real('a', -4, 4), E.int('ax', -3, 3)
    md = E.choice('mode', ['SAME_UPPER', 'VALID'])
    nodes = [out('Conv', 'c0', ['x', 'w0'], ['t0'], kernel_shape=[3, 3], pads=p), out('LeakyRelu', 'l', ['t0'], ['t1'], alpha=a),
             out('Conv', 'c1', ['t1', 'w1'], ['t2'], kernel_shape=[1, 1], pads=q, auto_pad=md), out('Softmax', 's', ['t2'], ['y'], axis=ax), out('Relu', 'r', ['y'], ['z'])]
    g = mkgraph(E, nodes, [('x', [1, 3, h, h], f32)], [('z', None, f32)], [weight(E, 'w0', [4, 3, 3, 3]), weight(E, 'w1', [4, 4, 1, 1])])
    near = lambda x, y: E.close(x, y, 0 if E.sym else 1e-4)

    def same(got, want):
        E.check(sorted(got) == sorted(want), f'the attributes are named {sorted(want)}')
        for k, v in want.items():
            if k in got:
                x = got[k]
                ok = near(x, v) if v is a else (E.same(x, v) if isinstance(v, list) else (x in (v, v.encode()) if isinstance(v, str) else E.eq(x, v)))
                E.check(ok, f'attribute {k}')
    if how in ('keep', 'drop'):
        r = E.call(g.fuse_subgraph_node_names, ['c0', 'l', 'c1', 's'], 'Blk', 'f', how == 'keep')
        if not r.ok:
            E.fail(f'fuse_subgraph_node_names raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        nd = g.nodemap['f']
        same(attrs_of(E, nd), {'Conv0_kernel_shape': [3, 3], 'Conv0_pads': p, 'LeakyRelu1_alpha': a, 'Conv2_kernel_shape': [1, 1], 'Conv2_pads': q, 'Conv2_auto_pad': md,
                               'Softmax3_axis': ax} if how == 'keep' else {})
        if how == 'keep':
            E.check(E.same(list(nd.Conv0_pads), p) and E.same(list(nd.Conv2_pads), q) and E.eq(nd.Softmax3_axis, ax) and near(nd.LeakyRelu1_alpha, a), 'the node has them as fields')
    elif how == 'post':
        r = E.call(g.fuse_postop_node_names, ['c0', 'l'], True)
        if not r.ok:
            E.fail(f'fuse_postop_node_names raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        same(attrs_of(E, g.nodemap['c0']), {'kernel_shape': [3, 3], 'pads': p, 'postop_0': 'LeakyRelu', 'postop_0_alpha': a, 'postop_count': 1})
        r = E.call(g.fuse_postop_node_names, ['c1', 's', 'r'], True, note=ax)
        if not r.ok:
            E.fail(f'fuse_postop_node_names raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        same(attrs_of(E, g.nodemap['c1']), {'kernel_shape': [1, 1], 'pads': q, 'auto_pad': md, 'postop_0': 'Softmax', 'postop_0_axis': ax, 'postop_1': 'Relu', 'postop_count': 2, 'note': ax})
        E.check(E.same(list(g.nodemap['c1'].pads), q) and list(g.output) == ['z'] and sorted(g.nodemap) == ['c0', 'c1'], 'two nodes are left')
    elif how == 'postpost':
        for nm in ('l', 'c1', 's'):
            r = E.call(g.fuse_postop_node_names, ['c0', nm], True)
            if not r.ok:
                E.fail(f'fuse_postop_node_names raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        same(attrs_of(E, g.nodemap['c0']), {'kernel_shape': [3, 3], 'pads': p, 'postop_0': 'LeakyRelu', 'postop_0_alpha': a, 'postop_1': 'Conv', 'postop_1_kernel_shape': [1, 1],
                                            'postop_1_pads': q, 'postop_1_auto_pad': md, 'postop_2': 'Softmax', 'postop_2_axis': ax, 'postop_count': 3})
        E.check(list(g.nodemap['c0'].input) == ['x', 'w0', 'w1'] and list(g.nodemap['c0'].output) == ['y'], 'inputs and outputs')
    else:
        r = E.call(g.fuse_postop_node_names, ['c0', 'l'], False)
        if not r.ok:
            E.fail(f'fuse_postop_node_names raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        same(attrs_of(E, g.nodemap['c0']), {'kernel_shape': [3, 3], 'pads': p, 'postop_count': 0})
    # a shape inference of the rest works on
    tables(E, g, ['x', 'w0', 'w1', 't0', 't1', 't2', 'y', 'z'], lambda s: s)


def blocks(E, n, extra=True):
    """n copies of x*x*c + x, one after the other"""
    h = E.int('h', 1, 64)
    nodes, cur = [], 'x'
    for i in range(n):
        nodes += [out('Mul', f'm{i}', [cur, cur], [f'a{i}']), out('Mul', f'k{i}', [f'a{i}', 'c'], [f'b{i}']), out('Add', f'p{i}', [f'b{i}', cur], [f'o{i}'])]
        if extra:
            nodes.append(out('Relu', f'r{i}', [f'o{i}'], [f'q{i}']))
        cur = f'q{i}' if extra else f'o{i}'
    v = E.real('c', -4, 4)
    return nodes, h, cur, v


def h_iot(E, via, n):
    """fuse_subgraph_iotensors / model_opfusion fuse every copy of the block between the given tensors"""
    nodes, h, last, v = blocks(E, n)
    ins, outs = [('x', [h, 3], f32)], [(last, [h, 3], f32)]
    inits = [('c', E.array([v], f32))]
    at = dict(inputs=['x'], outputs=['o0'])
    if via == 'graph':
        g = mkgraph(E, nodes, ins, outs, inits)
        r = E.call(g.fuse_subgraph_iotensors, ['x'], ['o0'], 'Blk', 'blk')
        if not r.ok:
            E.fail(f'fuse_subgraph_iotensors raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        fuse_names = [f'blk_{i}' for i in range(n)]
    elif via == 'noname':
        g = mkgraph(E, nodes, ins, outs, inits)
        r = E.call(g.fuse_subgraph_iotensors, ['x'], ['o0'], nodeop='Blk', keep_attr=False)
        if not r.ok:
            E.fail(f'fuse_subgraph_iotensors raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        fuse_names = [f'm{i}' for i in range(n)]
    else:
        m = model(E, nodes, ins, outs, inits)
        m.ir_version = 8
        m.opset_import[0].version = 13
        with scratch(E) as d:
            f = os.path.join(d, 'f.onnx')
            if via == 'tensors':
                r = E.call(E.m('').model_opfusion, m, 'Blk', 'blk', f, ['x'], ['o0'])
                fuse_names = [f'blk_{i}' for i in range(n)]
            else:
                r = E.call(E.m('').model_opfusion, m, 'Blk', 'blk', f, nodenames=['m0', 'k0', 'p0'])
                fuse_names = ['blk']
            if not r.ok:
                E.fail(f'model_opfusion raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
            s = onnx_of(E).load_model(f)
        E.check(s.ir_version == 8 and [o.version for o in s.opset_import] == [13], 'versions')
        known = {'x', 'c'}
        for nd in s.graph.node:
            E.check(all(t in known for t in nd.input), f'the saved nodes are in order ({nd.name})')
            known |= set(nd.output)
        E.check([t.name for t in s.graph.input] == ['x'] and [t.name for t in s.graph.output] == [last] and [t.name for t in s.graph.initializer] == ['c'], 'borders of the saved model')
        g = E.graph.Graph(s.graph, E.m('utils').ModelConfig({}))
    want = {}
    for i in range(n):
        cur = 'x' if i == 0 else f'q{i - 1}'
        if i < len(fuse_names):
            want[fuse_names[i]] = ('Blk', [cur, 'c'], [f'o{i}'])
        else:
            for op, nm, a, b, _ in nodes[4 * i:4 * i + 3]:
                want[nm] = (op, a, b)
        want[f'r{i}'] = ('Relu', [f'o{i}'], [f'q{i}'])
    E.check({k: (x.op_type, list(x.input), list(x.output)) for k, x in g.nodemap.items()} == want, 'every copy is one node, the others are unchanged')
    E.check(list(g.output) == [last] and list(g.input) == ['x'], 'graph inputs and outputs')
    E.check(E.same(E.elems(g.tensormap['c'].numpy), [v]), 'the weight is kept')
    pool = ['x', 'c'] + [t for x in nodes for t in x[3]]
    tables(E, g, pool, lambda s: s)


BUILTIN = {
    'ConvBN': ([out('Relu', 'a', ['x'], ['a']), out('Conv', 'c', ['a', 'w'], ['c'], kernel_shape=[3, 3]), out('BatchNormalization', 'b', ['c', 'v', 'v', 'v', 'v'], ['y'])], ['c', 'b']),
    'Fused_Element': ([out('Conv', 'c', ['x', 'w'], ['c'], kernel_shape=[3, 3]), out('Relu', 'r', ['c'], ['y'])], ['c', 'r']),
    'Conv_Res': ([out('Exp', 'e', ['x'], ['e']), out('Conv', 'c', ['x', 'w'], ['c'], kernel_shape=[3, 3]), out('Add', 'ad', ['e', 'c'], ['s']), out('Relu', 'r', ['s'], ['y'])], ['c', 'ad', 'r']),
    'layernorm_pattern': ([out('ReduceMean', 'm', ['x'], ['m']), out('Sub', 's', ['x', 'm'], ['s']), out('Pow', 'p', ['s', 'two'], ['p']), out('ReduceMean', 'm2', ['p'], ['m2']),
                           out('Add', 'ad', ['m2', 'eps'], ['ad']), out('Sqrt', 'q', ['ad'], ['q']), out('Div', 'd', ['s', 'q'], ['y'])], ['m', 's', 'p', 'm2', 'ad', 'q', 'd']),
    'MHAint8_Pattern': ([out('QLinearMatMul', 'mm', ['x', 'k', 'v', 'w'], ['mm']), out('DequantizeLinear', 'dq', ['mm', 'k'], ['dq']), out('Div', 'd', ['dq', 'k'], ['d']),
                         out('Add', 'ad', ['d', 'k'], ['ad']), out('Softmax', 'sm', ['ad'], ['sm']), out('QuantizeLinear', 'q', ['sm', 'k'], ['q']),
                         out('QLinearMatMul', 'mm1', ['q', 'k', 'v', 'w'], ['y'])], ['mm', 'dq', 'd', 'ad', 'sm', 'q', 'mm1']),
}


def h_builtin(E, name):
    """the ready-made patterns find the structure they are named after - and nothing once one of its links is cut"""
    nodes, want = BUILTIN[name]
    cut = E.choice('cut', [None] + [i for i in range(1, len(nodes)) if any(a in [o for n in nodes for o in n[3]] for a in nodes[i][2])])
    nodes = [list(n) for n in nodes]
    if cut is not None:
        nodes[cut][2] = ['u' if any(t in n[3] for n in nodes) else t for t in nodes[cut][2]]
    g = mkgraph(E, [tuple(n) for n in nodes], [('x', None, f32), ('u', None, f32)], [('y', None, f32)])
    r = E.call(E.m('fusion').FusionPattern(getattr(E.m('fusion'), name)).search_pattern, g)
    if not r.ok:
        E.fail(f'search_pattern raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    hit = cut is None or nodes[cut][1] not in want or (name in ('ConvBN', 'Conv_Res', 'Fused_Element') and nodes[cut][1] == 'c')
    if name == 'Fused_Element' and cut is not None:
        hit = False
    E.check(r.val == ([want] if hit else []), f'matches: {r.val}')


# ---- ConvBN
def bn_graph(E, kind):
    oc, ic, dt = 2, 2, 'float32'
    R = lambda n, k, lo=-4, hi=4: [E.real(f'{n}{i}', lo, hi) for i in range(k)]
    group = 1
    kind, size, ch, ty = (kind.split(':') + ['', '', ''])[:4]
    if ch:
        oc, ic = map(int, ch.split('x'))
    dt = np.dtype(ty or dt).type
    ks = [int(c) for c in size] or ([1] if kind == 'conv1d' else [1, 1])
    if kind == 'group':
        group, icg = 2, 1
    else:
        icg = ic
    ws = [oc, icg] + ks
    w, b = R('w', oc * icg * prod(ks)), R('b', oc)
    bn = dict(g=R('g', oc), be=R('be', oc), m=R('m', oc), v=R('v', oc, 1, 4))
    eps = None if kind == 'noeps' else E.real('eps', 0, 1)
    x = R('x', ic * prod(ks))
    return kind, ws, group, w, b, bn, eps, x, ic, dt


def h_convbn(E, kind):
    kind, ws, group, w, b, bn, eps, x, ic, dt = bn_graph(E, kind)
    oc, icg = ws[0], ws[1]
    ks = ws[2:]
    one = [1] * len(ks)
    K = prod(ks)
    bias = kind not in ('nobias', 'emptybias')
    at = {} if eps is None else {'epsilon': eps}
    cin = ['x', 'w'] + (['b'] if bias else [''] if kind == 'emptybias' else [])
    conv = lambda nm, i, o, cin=cin: out('Conv', nm, [i] + cin[1:], [o], kernel_shape=ks, strides=one, pads=[0] * (2 * len(ks)), dilations=one, group=group)
    bnn = lambda nm, i, o: out('BatchNormalization', nm, [i, 'g', 'be', 'm', 'v'], [o], **at)
    nodes, outs = [conv('c', 'x', 't'), bnn('n', 't', 'y')], ['y']
    if kind == 'two_readers':
        nodes.append(out('Neg', 'ng', ['t'], ['z']))
        outs.append('z')
    if kind == 'conv_is_output':
        outs.append('t')
    if kind == 'mid':
        nodes.append(out('Neg', 'ng', ['y'], ['z']))
        outs = ['z']
    if kind in ('shared', 'shared_bias', 'chain'):
        if kind == 'chain':
            nodes += [conv('c2', 'y', 't2'), bnn('n2', 't2', 'z')]
        else:
            nodes += [out('Neg', 'ng', ['x'], ['x2']), conv('c2', 'x2', 't2', ['x', 'w' if kind == 'shared' else 'w2', 'b']), bnn('n2', 't2', 'z')]
        outs.append('z')
    if kind == 'shared_plain':
        nodes += [conv('c2', 'x', 'z')]
        outs.append('z')
    arr = {'w': E.array(np_shape(w, ws), dt), 'b': E.array(b, dt)}
    if kind == 'shared_bias':
        arr['w2'] = E.array(np_shape(w, ws), dt)
    for k, vals in bn.items():
        arr[k] = E.array(vals, dt)
    if not bias:
        arr.pop('b')
    dyn = {'dynw': 'w', 'dynb': 'b', 'dyng': 'g'}.get(kind)
    ins = [('x', [1, ic] + ks, dt)]
    if dyn:
        ins.append((dyn, list(arr[dyn].shape), dt))
    if kind == 'constw':
        nodes.insert(0, out('Constant', 'kw', [], ['w'], value=arr['w']))
    g = mkgraph(E, nodes, ins, [(o, None, dt) for o in outs], [(k, a) for k, a in arr.items() if k != dyn and not (kind == 'constw' and k == 'w')])
    vals = lambda a: a if isinstance(a, list) else E.elems(a)
    # reference
    e = eps if eps is not None else 1e-5
    sq = []
    for i in range(oc):
        s = E.np.sqrt(E.array([bn['v'][i] + e], np.float64))
        s = E.elems(s)[0]
        E.assume(s > 0.5)
        sq.append(s)

    def cv(v):
        r = []
        for o in range(oc):
            s = b[o] if bias else 0
            for i in range(icg):
                for k in range(K):
                    s = s + w[(o * icg + i) * K + k] * v[(i if group == 1 else o) * K + k]
            r.append(s)
        return r
    bnf = lambda v: [bn['g'][i] / sq[i] * (v[i] - bn['m'][i]) + bn['be'][i] for i in range(oc)]
    ref = {'t': cv(x)}
    ref['y'] = bnf(ref['t'])
    if kind == 'two_readers':
        ref['z'] = [-a for a in ref['t']]
    if kind == 'mid':
        ref['z'] = [-a for a in ref['y']]
    if kind == 'chain':
        ref['z'] = bnf(cv(ref['y']))
    if kind in ('shared', 'shared_bias'):
        ref['z'] = bnf(cv([-a for a in x]))
    if kind == 'shared_plain':
        ref['z'] = cv(x)
    r = E.call(E.m('fusion').ConvBNFusion, g)
    if not r.ok:
        E.fail(f'ConvBNFusion raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    left = [n.name for n in g.nodemap.values() if n.op_type == 'BatchNormalization']
    if kind in ('two_readers', 'conv_is_output', 'dynw', 'dynb', 'dyng', 'constw'):
        E.check(left == ['n'], 'the batch normalisation has to stay')
    elif kind != 'conv1d':
        E.check(left == [], 'the batch normalisation is gone')
    E.check(list(g.output) == outs, 'the graph outputs stay')
    tables(E, g, ['x', 'w', 'b', 'g', 'be', 'm', 'v', 't', 'y', 'z', 't2', 'x2'] + [k for k in g.tensormap if k.endswith('_bias_')], lambda s: s)
    g.graph_reorder_nodes()
    feed = {'x': E.array(np_shape(x, [1, ic] + ks), dt)}
    if dyn:
        feed[dyn] = arr[dyn]
    r = E.call(g.value_infer, feed)
    if kind in ('group', 'conv1d'):     # evaluation is not implemented for these: read off what the node would compute
        nw = E.elems(g.tensormap[g.nodemap['c'].input[1]].numpy)
        nb = E.elems(g.tensormap[g.nodemap['c'].input[2]].numpy)
        y = [nb[o] + sum(nw[(o * icg + i) * K + k] * x[(i if group == 1 else o) * K + k] for i in range(icg) for k in range(K)) for o in range(oc)]
        if left:
            y = bnf(y)
        r.ok, r.val = True, [y]
    if not r.ok:
        E.fail(f'value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    for o, got in zip(outs, r.val):
        E.check(got is not None, f'{o} has a value')
        if got is None:
            continue
        E.check(E.all(*[E.close(p, q, 0 if E.sym else 1e-3) for p, q in zip(vals(got), ref[o])]) and len(vals(got)) == len(ref[o]), f'value of {o}')
    # the new parameters are of the type of the operands
    if not left:
        E.check(all(np.dtype(g.tensormap[n].numpy.dtype) == np.dtype(dt) for k in g.nodemap.values() if k.op_type == 'Conv' for n in k.input[1:] if n), 'operand types of the convolution agree')
    # what is saved is what was computed
    for k in g.initials:
        t = g.tensormap[k]
        dt, dims, sv = decode(E, t.make_tensor_proto())
        E.check(dims == list(t.numpy.shape) and E.all(*[E.close(p, q, 0 if E.sym else 1e-4) for p, q in zip(sv, E.elems(t.numpy))]), f'{k} is saved with its current value')


def np_shape(vals, shape):
    if len(shape) == 1:
        return list(vals)
    n = len(vals) // shape[0]
    return [np_shape(vals[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


# ---- the eight-node graph: three-result, four-operand and optional-operand nodes
def net_convex(N, sub):
    away = set()
    for i in range(N.n):
        if i in sub:
            if N.needs(i) & away:
                return False
        elif N.needs(i) & (away | set(sub)):
            away.add(i)
    return True


def net_connected(N, sub):
    seen = {sub[0]}
    for _ in sub:
        seen |= {i for i in sub if N.needs(i) & seen or any(i in N.needs(j) for j in seen)}
    return len(seen) == len(sub)


def h_netfuse(E, how, free, fix, outs, order, sizes):
    N = net.Net(E, free, outs, order, fix)
    sub = net.subset(E, N.n, convex=lambda s: len(s) in sizes)
    if not net_convex(N, sub):
        return
    g = N.g
    names = [f'n{i}' for i in sub]
    if how == 'subgraph':
        name, op = 'fused', 'Blk'
        r = E.call(g.fuse_subgraph_node_names, list(names), 'Blk', 'fused')
        attrs = {f'Split{k}_axis': 0 for k, i in enumerate(sub) if N.nodes[i][1] == 'Split'}
    elif how == 'samename':
        name, op, attrs = names[-1], 'Blk', {}
        r = E.call(g.fuse_subgraph_node_names, list(names)[::-1], 'Blk', names[-1], False)
    else:
        name, op = names[0], N.nodes[sub[0]][1]
        r = E.call(g.fuse_postop_node_names, list(names), True)
        attrs = {'axis': 0} if op == 'Split' else {}
        attrs.update({f'postop_{k}': N.nodes[i][1].encode() for k, i in enumerate(sub[1:])})
        attrs.update({f'postop_{k}_axis': 0 for k, i in enumerate(sub[1:]) if N.nodes[i][1] == 'Split'})
        attrs['postop_count'] = len(sub) - 1
    if not r.ok:
        E.fail(f'fusing raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    nd = g.nodemap.get(name)
    E.check(nd is not None and nd.op_type == op and nd.name == name, 'operator and name of the fused node')
    ins, outs_ = N.borders(sub, True)
    E.check(sorted(nd.input) == sorted(ins) and sorted(nd.output) == sorted(outs_), 'the fused node reads and makes exactly what crosses the border, each once')
    E.check(list(nd.proto.input) == list(nd.input) and list(nd.proto.output) == list(nd.output), 'the node to be saved has the same inputs and outputs')
    got = attrs_of(E, nd)
    E.check(set(got) == set(attrs), f'names of the attributes')
    for k, v in attrs.items():
        if k in got:
            E.check(got[k] == v or (isinstance(v, bytes) and got[k] == v.decode()), f'attribute {k}')
    E.check(sorted(g.nodemap) == sorted([f'n{i}' for i in range(N.n) if i not in sub] + [name]), 'the fused node replaces exactly the given nodes')
    for i in range(N.n):
        if i not in sub and f'n{i}' in g.nodemap:
            o = g.nodemap[f'n{i}']
            E.check(o.op_type == N.nodes[i][1] and list(o.input) == N.nodes[i][2] and list(o.output) == N.nodes[i][3], f'n{i} is unchanged')
    E.check(list(g.output) == N.outs, 'the graph outputs stay')
    tables(E, g, N.tensors, lambda t: t)

    def value_infer(intensors, outtensors):
        E.check(len(intensors) == len(nd.input) and len(outtensors) == len(nd.output), 'the fused node gets its tensors')
        v = {n: E.elems(t.get_numpy()) for t, n in zip(intensors, nd.input)}
        for i in sub:
            v.update(N.run(N.nodes[i][1], N.nodes[i][2], N.nodes[i][3], v))
        for t, n in zip(outtensors, nd.output):
            t.update_tensor(N.arr(v[n], n))
    nd.value_infer = value_infer
    r = E.call(g.graph_reorder_nodes)
    E.check(r.ok and len(g.nodemap) == N.n - len(sub) + 1, 'every node is still reachable in order')
    N.check_values(g, N.val, 'fused')


def h_netsearch(E, free, fix, order, sizes, inplace, ports):
    N = net.Net(E, free, 0, order, fix)
    sub = net.subset(E, N.n, convex=lambda s: len(s) in sizes)
    if not net_connected(N, sub):
        return
    F = E.m('fusion')
    r = E.call(F.create_descs_from_nodenames, N.g, [f'n{i}' for i in sub])
    if not r.ok:
        E.fail(f'create_descs_from_nodenames raises {type(r.exc).__name__}')
    ds = r.val
    E.check([(d['name'], d['op']) for d in ds] == [(f'n{i}', N.nodes[i][1]) for i in sub], 'one description per node, in order')
    links = sorted((a, N.nodes[a][3].index(t), b, j) for b in sub for j, t in enumerate(N.nodes[b][2]) for a in sub if t in N.nodes[a][3])
    for d, i in zip(ds, sub):
        E.check(sorted(map(tuple, d['outport'])) == sorted((o, f'n{b}', j) for a, o, b, j in links if a == i), 'outgoing links')
        E.check(sorted(map(tuple, d['inport'])) == sorted((j, f'n{a}', o) for a, o, b, j in links if b == i), 'incoming links')
    if not ports:
        for d in ds:
            d['outport'] = [[-1, n, -1] for _, n, _ in d['outport']]
            d['inport'] = [[-1, n, -1] for _, n, _ in d['inport']]
        links = [(a, -1, b, -1) for a, _, b, _ in links]
    r = E.call(F.FusionPattern(ds, inplace_fusion=inplace).search_pattern, N.g)
    if not r.ok:
        E.fail(f'search_pattern raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    found = [[int(n[1:]) for n in m] for m in r.val]
    used = [i for m in found for i in m]
    E.check(len(set(used)) == len(used), 'no node is used twice')

    def holds(m):
        to = dict(zip(sub, m))
        for a, o, b, j in links:
            hit = False
            for jj, t in enumerate(N.nodes[to[b]][2]):
                if j in (-1, jj) and t in N.nodes[to[a]][3] and o in (-1, N.nodes[to[a]][3].index(t)):
                    if not inplace or sum(row[2].count(t) for row in N.nodes) == 1:
                        hit = True
            if not hit:
                return False
        return all(N.nodes[k][1] == N.nodes[i][1] for i, k in to.items())
    for m in found:
        E.check(len(m) == len(sub) and holds(m), f'{m} is as described')
    cands = [[k for k in range(N.n) if k not in used and N.nodes[k][1] == N.nodes[i][1]] for i in sub]
    for m in itertools.product(*cands):
        if len(set(m)) == len(m):
            E.check(not holds(m), f'an occurrence {m} is not missed')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    O4 = {'s2': ['Add', 'Sub', 'Sub', 'Add'], 's2same': ['Add', 'Add', 'Add', 'Add'], 's3': ['Add', 'Sub', 'Sub', 'Mul'], 'port0': ['Add', 'Sub', 'Add', 'Sub'],
          'port1': ['Add', 'Sub', 'Add', 'Sub'], 'any': ['Add', 'Sub', 'Mul', 'Sub'], 'diamond': ['Add', 'Sub', 'Sub', 'Mul'], 'fork': ['Add', 'Mul', 'Sub', 'Sub'],
          'join': ['Add', 'Sub', 'Add', 'Mul'], 'late': ['Add', 'Add', 'Mul', 'Mul'], 'list': ['Sub', 'Add', 'Mul', 'Add']}
    ARS = [[0, 1, 1, 2], [0, 1, 2, 1]] + ([[0, 1, 2, 2]] if th else [])
    for k, (p, ops) in enumerate(O4.items()):
        for inplace in (False, True):
            for ai, ar in enumerate(ARS if th or not inplace else ARS[k % 2:k % 2 + 1]):
                for rev in ((False, True) if th else ((k + inplace + ai) % 2 == 1,)):
                    obs.append(Ob(f'search-{p}{"-inplace" if inplace else ""}{"-rev" if rev else ""}-{"".join(map(str, ar))}', h_search, dict(pat=p, ops=ops, inplace=inplace, rev=rev, ar=ar), weight=8))
    obs += [Ob(f'descs-{"".join(map(str, s))}', h_descs, dict(sub=list(s), ops=['Add', 'Sub', 'Add'], ar=[1, 2, 2]), weight=3) for s in ((0,), (0, 1), (1, 2), (0, 2), (0, 1, 2))]
    obs += [Ob(f'outport-{n}', h_outport, dict(inplace=n == 'inplace'), weight=6) for n in ('any', 'inplace')]
    obs += [Ob(f'attr-{c}', h_attr, dict(case=c)) for c in ('scalar', 'real', 'list', 'short', 'missing', 'several')]
    for k, (sub, outs) in enumerate(itertools.product([(0, 1), (1, 2), (0, 2), (0, 1, 2), (1,)], [[2], [0, 2], [1, 2]])):
        for how in ('subgraph', 'samename', 'postop'):
            for ar in [[1, 1, 2]] + ([[1, 2, 1], [1, 2, 2]] if th else []):
                obs.append(Ob(f'fuse-{how}-{"".join(map(str, sub))}-{"".join(map(str, outs))}-{"".join(map(str, ar))}', h_fuse,
                              dict(ops=['Add', 'Sub', 'Mul'], outs=outs, sub=list(sub), rev=k % 2 == 1, ar=ar, how=how), weight=3))
    for k, how in enumerate(('subgraph', 'samename', 'postop')):
        for j, sizes in enumerate(((1, 2, 3), (4, 5, 6, 7, 8))):
            obs.append(Ob(f'net-fuse-{how}-{j}', h_netfuse, dict(how=how, free=() if not th else (2,), fix=k + j, outs=(k + j) % 3, order=['same', 'rev', 'odd'][(k + 2 * j) % 3], sizes=sizes), weight=5))
    for k in range(4):
        obs.append(Ob(f'net-search-{k}', h_netsearch, dict(free=[(), (2,), (3,), (1,)][k], fix=k, order=['same', 'odd', 'rev', 'same'][k], sizes=(2, 3) if k or th else (2, 3, 4, 5), inplace=k == 1, ports=k != 2), weight=5))
    obs += [Ob(f'kind-{k}-{h}', h_attrkinds, dict(kind=k, how=h)) for k in KINDS for h in ('sub', 'post', 'main')]
    obs += [Ob(f'attrs-{h}', h_attrs, dict(how=h)) for h in ('keep', 'drop', 'post', 'postpost', 'postno')]
    obs += [Ob(f'iot-{v}-{n}', h_iot, dict(via=v, n=n)) for v in ('graph', 'noname', 'tensors', 'nodes') for n in (1, 3)]
    obs += [Ob(f'builtin-{n}', h_builtin, dict(name=n)) for n in BUILTIN]
    obs += [Ob(f'convbn-{k}', h_convbn, dict(kind=k), weight=2) for k in ('bias', 'nobias', 'emptybias', 'noeps', 'group', 'conv1d', 'two_readers', 'conv_is_output', 'mid', 'chain', 'shared',
                                                                       'shared_bias', 'shared_plain', 'dynw', 'dynb', 'dyng', 'constw', 'bias:14', 'bias:31', 'nobias:23', 'emptybias:41', 'noeps:13',
                                                                       'group:31', 'group:13', 'conv1d:4', 'conv1d:3', 'two_readers:21', 'bias:11:3x6', 'nobias:12:5x2', 'emptybias:11:1x5', 'nobias:11:2x2:float64', 'emptybias:11:2x2:float64', 'bias:11:2x2:float64')]
    return obs


BOUNDS = {'net-': 'an eight-node graph with three-result, four-operand and optional-operand nodes: every convex subset fused, every connected subset of 2-5 nodes searched',
          'search-': 'eleven patterns (serial, explicit ports, wildcard, diamond, fork, join) against every wiring of 4 binary operators with 4 free operands (5 thorough), in-place or not, two '
                     'listing orders', 'descs-': 'every wiring of 3 operators, five node subsets',
          'outport-': 'a producer with three results and two readers of two operands each, every wiring, every pair of ports', 'attr-': 'five comparisons of one value or list element, values -50..50', 'fuse-': 'every wiring of 3 binary integer operators with 4 free operands (5 thorough), five convex node '
          'subsets, one or two graph outputs; element values -20..20', 'attrs-': 'a five-node chain with symbolic attribute values', 'iot-': 'one or three copies of a three-node block',
          'builtin-': 'the five ready-made patterns with each link cut in turn', 'convbn-': 'kernels 1x1, 1x3, 1x4, 2x3, 3x1, 4x1 on inputs of the kernel size, 1-5 output and 2-6 input channels, float32 and float64, symbolic real parameters in [-4,4], 33 graph shapes'}
OUTSIDE = 'fusing node sets that a path leaves and re-enters; patterns whose descriptions are not linked together; larger graphs and kernels'
ASSUMPTIONS = ['tensor names are symbols of a finite pool compared by equality', 'integer element values without wrap-around; ConvBN in real arithmetic, sqrt uninterpreted and > 0.5']
