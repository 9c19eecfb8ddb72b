"""C10 - profile totals: sums over nodes, parameters, bytes, exclusions, the printed table."""
import os
import shutil
import tempfile
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c09 import T, build, norm_inputs, feed, go

f32, f16, i64, i8, f64 = np.float32, np.float16, np.int64, np.int8, np.float64


def vol(s):
    return prod(s) if len(s) else 0


def static_names(g, initial):
    """names of the tensors that do not depend on a graph input"""
    st = set(initial)
    for n in g.nodemap.values():
        if n.op_type != 'DequantizeLinear' and all(i in st or i == '' for i in n.input):
            st |= set(n.output)
    return st


def esize(g, t):
    t = g.tensormap[t]
    return np.dtype(t.numpy.dtype if t.numpy is not None else t.dtype).itemsize


def oracle(E, g, st, names):
    """per node: macs, params, memory; what the totals must be"""
    rows = {}
    for k in names:
        n = g.nodemap[k]
        it = [g.tensormap[i] for i in n.input]
        ot = [g.tensormap[o] for o in n.output]
        n.static_inputs = [j for j, i in enumerate(n.input) if i in st and i != '']
        macs, io, stat = n.profile(it, ot)
        params = 0
        for i in n.input:
            if i in st and i != '':
                params = params + vol(g.tensormap[i].get_shape())
        rows[k] = (macs, params, io * esize(g, n.output[0]) + stat * (esize(g, n.input[0]) if n.input else 4))
    return rows


def check_profile(E, g, st, names, label, inits):
    rows = oracle(E, g, st, names)
    tot = [0, 0, 0]
    for k in names:
        n = g.nodemap[k]
        E.check(E.eq(n.macs, rows[k][0]), f'{label}: MACs of node {k}')
        E.check(E.eq(n.params, rows[k][1]), f'{label}: params of node {k}')
        E.check(E.eq(n.memory, rows[k][2]), f'{label}: memory of node {k}')
        E.check(sorted(n.static_inputs) == [j for j, i in enumerate(n.input) if i in st and i != ''], f'{label}: static inputs of node {k}')
        E.check(sorted(n.dynamic_inputs) == [j for j, i in enumerate(n.input) if i not in st and i != ''], f'{label}: dynamic inputs of node {k}')
        E.check(E.same(list(n.outshape), g.tensormap[n.output[0]].get_shape() or [0]), f'{label}: output shape of node {k}')
        if n.input:
            E.check(E.same(list(n.inshape), g.tensormap[n.input[0]].get_shape() or [0]), f'{label}: input shape of node {k}')
        tot = [a + b for a, b in zip(tot, rows[k])]
    E.observe('totals', [g.macs[0], g.params, g.memory])
    E.check(E.eq(g.macs[0], tot[0]), f'{label}: total MACs')
    E.check(E.eq(g.params, tot[1]), f'{label}: total params')
    E.check(E.eq(g.memory, tot[2]), f'{label}: total memory')
    once = 0
    for i in sorted(inits):
        if any(i in n.input for n in g.nodemap.values()):
            once = once + vol(g.tensormap[i].get_shape())
    E.check(E.eq(g.dedup_params, once), f'{label}: parameters counted once')
    E.check(bool(g.valid_profile), f'{label}: valid_profile')


def h_generic(E, name, folding):
    g, ins, want = build(E, name, 'a', {'constant_folding': folding})
    go(E, g, ins, name)
    r = E.call(g.profile)
    if not r.ok:
        E.fail(f'{name}: profile raises {str(r.exc)[:120]}')
    check_profile(E, g, static_names(g, g.initials), list(g.nodemap), name, g.initials)


# ------------------------------------------------------------------ a model whose costs are written out by hand
DTS = {'f32': (f32, 4), 'f16': (f16, 2), 'f64': (f64, 8)}


def known(E, dt, order=0, cfg=None, lo=1, hi=512):
    """x[n,6] -> MatMul w[6,8] -> Add b -> Relu -> MatMul v[8,6] -> Add x -> MatMul w (shared) -> Softmax"""
    n = E.int('n', lo, hi)
    nodes = [out('MatMul', 'm0', ['x', 'w'], ['a']), out('Add', 'ab', ['a', 'b'], ['a1']), out('Relu', 'r', ['a1'], ['a2']),
             out('MatMul', 'm1', ['a2', 'v'], ['c']), out('Add', 'res', ['c', 'x'], ['d']), out('MatMul', 'm2', ['d', 'w'], ['e']),
             out('Identity', 'id', ['e'], ['e1']), out('Softmax', 'sm', ['e1'], ['y'], axis=-1)]
    inits = [weight(E, 'w', [6, 8], dt), weight(E, 'b', [8], dt), weight(E, 'v', [8, 6], dt)]
    g = mkgraph(E, nodes[::-1] if order else nodes, [('x', ['N', 6], dt)], [('y', None, dt)], inits, **(cfg or {}))
    # node: (macs, activation elements, weight elements)
    cost = {'m0': (n * 48, n * 8, 48), 'ab': (n * 8, n * 8, 8), 'r': (n * 8, n * 8, 0), 'm1': (n * 48, n * 6, 48), 'res': (n * 6, n * 6, 0),
            'm2': (n * 48, n * 8, 48), 'id': (0, n * 8, 0), 'sm': (n * 8 * 36, n * 8, 0)}
    return g, n, cost


def h_known(E, dt, folding, order, twice):
    dtype, size = DTS[dt]
    g, n, cost = known(E, dtype, order, {'constant_folding': folding})
    g.graph_reorder_nodes()
    if twice:
        g.shape_infer({'x': E.opaque([E.int('n1', 1, 512), 6], dtype, 0)})
        g.profile()
    g.shape_infer({'x': E.opaque([n, 6], dtype, 0)})
    g.profile()
    tot = [0, 0, 0]
    for k, (m, io, w) in cost.items():
        nd = g.nodemap[k]
        E.check(E.eq(nd.macs, m), f'{k}: MACs')
        E.check(E.eq(nd.params, w), f'{k}: params')
        E.check(E.eq(nd.memory, (io + w) * size), f'{k}: bytes')
        tot = [tot[0] + m, tot[1] + w, tot[2] + (io + w) * size]
    E.observe('tot', [g.macs[0], g.params, g.memory, g.dedup_params])
    E.check(E.eq(g.macs[0], tot[0]), 'total MACs')
    E.check(E.eq(g.params, tot[1]), 'total params')
    E.check(E.eq(g.memory, tot[2]), 'total bytes')
    E.check(E.eq(g.dedup_params, 104), 'shared weight counted once')


OPS = ['MatMul', 'Add', 'Relu', 'Identity', 'Softmax']


def h_exclude(E, dt):
    """totals leave out exactly the nodes of the excluded operator types, whatever the set"""
    dtype, size = DTS[dt]
    g, n, cost = known(E, dtype)
    ex = {o for o in OPS if E.choice('x' + o, [False, True])}
    g.shape_infer({'x': E.opaque([n, 6], dtype, 0)})
    g.profile(exclude_ops=ex)
    tot = [0, 0, 0]
    for k, (m, io, w) in cost.items():
        if g.nodemap[k].op_type in ex:
            continue
        tot = [tot[0] + m, tot[1] + w, tot[2] + (io + w) * size]
    E.check(E.eq(g.macs[0], tot[0]), 'total MACs without the excluded operators')
    E.check(E.eq(g.params, tot[1]), 'total params without the excluded operators')
    E.check(E.eq(g.memory, tot[2]), 'total bytes without the excluded operators')
    # a shared weight is counted once, and only when a covered node reads it
    left = [k for k in cost if g.nodemap[k].op_type not in ex]
    once = sum(v for v, rd in ((48, ('m0', 'm2')), (8, ('ab',)), (48, ('m1',))) if any(k in left for k in rd))
    E.check(E.eq(g.dedup_params, once), 'weights of the covered operators, each once')


def h_before(E):
    """no profile without shapes: nothing is reported as valid"""
    g, n, cost = known(E, f32)
    g.profile()
    E.check(not g.valid_profile, 'profile before shape inference is not valid')
    g.shape_infer({'x': E.opaque([n, 6], f32, 0)})
    g.profile()
    E.check(bool(g.valid_profile), 'profile after shape inference is valid')


# ------------------------------------------------------------------ the printed table
def table(E, path, csv):
    rows = []
    for ln in open(path, encoding='utf-8'):
        ln = ln.rstrip('\n')
        if not csv and set(ln) <= set('- '):
            continue
        rows.append(ln.split(',') if csv else [c for c in ln.split('  ') if c.strip()])
    rows = [[c.strip() for c in r] for r in rows]
    if csv:
        E.check(all(len(r) == len(rows[0]) for r in rows), 'as many cells in every row of the csv file as in its header')
        for r in rows:
            for c in r:
                E.check(E.plain(c), 'numbers in the csv file have no thousands separators')
    return rows


def check_table(E, rows, names, cost, size, factor, label):
    head, body = rows[0], rows[1:]
    col = {h: i for i, h in enumerate(head)}
    metric = [h for h in head if h.startswith('Forward_')][0]
    E.check(metric == ('Forward_FLOPs' if factor == 2 else 'Forward_MACs'), f'{label}: metric column')
    per = {r[0]: r for r in body}
    E.check([r[0] for r in body if r[0] not in ('Total', 'Dedup_Params')] == list(names) or
            sorted(r[0] for r in body if r[0] not in ('Total', 'Dedup_Params')) == sorted(names), f'{label}: one row per covered node')
    tot = [0, 0, 0]
    for k in names:
        m, io, w = cost[k]
        tot = [tot[0] + m, tot[1] + (io + w) * size, tot[2] + w]
    tm, tb, tp = tot

    def pct(cell, a, b):
        v = E.num(cell)
        if v is None:
            return False
        return E.ite(b == 0, True, E.all(v * b - a <= E.frac(1, 10000) * b, a - v * b <= E.frac(1, 10000) * b)) if True else None
    for k in names:
        if k not in per:
            continue
        r = per[k]
        m, io, w = cost[k]
        E.check(E.eq(E.num(r[col[metric]]), m * factor), f'{label}: {k} {metric}')
        E.check(E.eq(E.num(r[col['Memory']]), (io + w) * size), f'{label}: {k} Memory')
        E.check(E.eq(E.num(r[col['Params']]), w), f'{label}: {k} Params')
        E.check(pct(r[col['FPercent']], m, tm), f'{label}: {k} share of the MACs')
        E.check(pct(r[col['MPercent']], (io + w) * size, tb), f'{label}: {k} share of the memory')
        E.check(pct(r[col['PPercent']], w, tp), f'{label}: {k} share of the params')
    t = per['Total']
    E.check(E.eq(E.num(t[col[metric]]), tm * factor), f'{label}: Total {metric}')
    E.check(E.eq(E.num(t[col['Memory']]), tb), f'{label}: Total Memory')
    E.check(E.eq(E.num(t[col['Params']]), tp), f'{label}: Total Params')


def shape_cell(E, cell):
    return [E.num(c) for c in cell.split('x')]


def h_table(E, csv, metric, exclude):
    dtype, size = f32, 4
    g, n, cost = known(E, dtype, lo=0, hi=3 * 10 ** 7)
    g.shape_infer({'x': E.opaque([n, 6], dtype, 0)})
    ex = {'Identity', 'Softmax'} if exclude else None
    g.profile(exclude_ops=ex)
    d = tempfile.mkdtemp(prefix='verif_c10_')
    try:
        p = os.path.join(d, 't.csv' if csv else 't.txt')
        r = E.call(g.print_node_map, p, metric, ex)
        if not r.ok:
            E.fail(f'print_node_map raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        rows = table(E, p, csv)
    finally:
        shutil.rmtree(d)
    names = [k for k in g.nodemap if not ex or g.nodemap[k].op_type not in ex]
    check_table(E, rows, names, cost, size, 2 if metric == 'FLOPs' else 1, 'table')
    col = {h: i for i, h in enumerate(rows[0])}
    want = {'m0': ([n, 6], [n, 8]), 'm1': ([n, 8], [n, 6]), 'res': ([n, 6], [n, 6])}
    for r in rows[1:]:
        if r[0] in want:
            E.check(E.same(shape_cell(E, r[col['InShape']]), want[r[0]][0]), f'table: input shape of {r[0]}')
            E.check(E.same(shape_cell(E, r[col['OutShape']]), want[r[0]][1]), f'table: output shape of {r[0]}')
    dd = [r for r in rows if r[0] == 'Dedup_Params']
    E.check(len(dd) == 1 and any(E.num(c) == 104 for c in dd[0][1:] if E.num(c) is not None), 'table: Dedup_Params row')


# ------------------------------------------------------------------ sparse weights
def holes(shape, ratio, block):
    """an array of that shape of which `ratio` of the blocks are zero"""
    bh, bw = block
    a = np.ones(shape, np.float32).reshape(shape[0] // bh, bh, shape[1] // bw, bw).transpose(0, 2, 1, 3).copy()
    k = a.shape[0] * a.shape[1]
    z = [(i * 7) % k < int(round(ratio * k)) for i in range(k)]
    a = a.reshape(k, bh, bw)
    a[np.array(z)] = 0
    return a.reshape(shape[0] // bh, shape[1] // bw, bh, bw).transpose(0, 2, 1, 3).reshape(shape)


SPARSE = {'none': (0.25, (1, 1)), 'half': (0.5, (1, 1)), 'most': (0.75, (1, 1)), 'blocks': (0.625, (4, 4)), 'tiles': (0.875, (8, 8))}


def h_sparse(E, csv, fold):
    """with sparse weights the table has the pattern, the share of zero blocks and the share of zeros of each node's sparsest operand"""
    a, b = E.choice('a', list(SPARSE)), E.choice('b', list(SPARSE))
    n = E.int('n', 1, 512)
    wa, wb = holes((64, 80), *SPARSE[a]), holes((80, 64), *SPARSE[b])
    nodes = [out('Gemm', 'ge', ['x', 'p'], ['a']), out('Relu', 're', ['a'], ['b']), out('Foo', 'fo', ['b', 'q', 'p'], ['c']), out('MatMul', 'ma', ['b', 'q'], ['d'])]
    nodes = [x for x in nodes if x[0] != 'Foo'] + [out('Where', 'wh', ['m', 'q', 'q2'], ['y'])]
    g = mkgraph(E, nodes, [('x', ['N', 64], f32), ('m', [80, 64], np.bool_)], [('d', None, f32), ('y', None, f32)],
                [('p', E.array(wa, f32)), ('q', E.array(wb, f32)), ('q2', E.array(holes((80, 64), *SPARSE[a]), f32))], constant_folding=fold)
    g.shape_infer({'x': E.opaque([n, 64], f32, 0), 'm': E.opaque([80, 64], np.bool_, 0)})
    g.profile()
    ra, rb = SPARSE[a], SPARSE[b]
    big = a if ra[0] > rb[0] else b
    want = {'ge': a, 're': 'none', 'ma': b, 'wh': big}
    E.check(g.sparse_model == (a != 'none' or b != 'none'), 'sparse_model')
    who = {'ge': 'p', 'ma': 'q', 'wh': 'q2' if ra[0] > rb[0] else 'q'}
    for k, v in want.items():
        sp = g.nodemap[k].sparsity
        if k == 're':
            E.check(tuple(sp['blocksize']) == (1, 1) and sp['ratio'] == 0 and sp['blockratio'] == 0, 're: no sparse operand')
            continue
        E.check(abs(float(sp['ratio']) - SPARSE[v][0]) < 1e-6, f'{k}: share of zeros {v}')
        mine = g.tensormap[who[k]].sparsity
        E.check(tuple(sp['blocksize']) == tuple(mine['blocksize']) and sp['blockratio'] == mine['blockratio'] and sp['ratio'] == mine['ratio'], f'{k}: pattern of the operand {who[k]}')
    d = tempfile.mkdtemp(prefix='verif_c10_')
    try:
        p = os.path.join(d, 't.csv' if csv else 't.txt')
        r = E.call(g.print_node_map, p)
        if not r.ok:
            E.fail(f'print_node_map raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        rows = table(E, p, csv)
    finally:
        shutil.rmtree(d)
    col = {h: i for i, h in enumerate(rows[0])}
    E.check(('Sparse Pattern' in col) == bool(g.sparse_model) == ('Sparse Ratio' in col), 'sparsity columns exactly for a sparse model')
    cost = {'ge': (n * 64 * 80, n * 80, 64 * 80), 're': (n * 80, n * 80, 0), 'ma': (n * 80 * 64, n * 64, 80 * 64)}
    for r in rows[1:]:
        if r[0] in want and 'Sparse Pattern' in col:
            sp = g.nodemap[r[0]].sparsity
            E.check(r[col['Sparse Pattern']] == '%dx%d' % tuple(sp['blocksize']), f'{r[0]}: pattern cell')
            E.check(r[col['Sparse Ratio']] == '{:.2%}'.format(sp['ratio']) and r[col['Sparse Block Ratio']] == '{:.2%}'.format(sp['blockratio']), f'{r[0]}: ratio cells')
        if r[0] in cost:
            E.check(E.eq(E.num(r[col['Forward_MACs']]), cost[r[0]][0]) and E.eq(E.num(r[col['Params']]), cost[r[0]][2]), f'{r[0]}: cells of the other columns')
    t = next(r for r in rows if r[0] == 'Total')
    E.check(E.eq(E.num(t[col['Params']]), g.params), 'Total Params in its column')


# ------------------------------------------------------------------ model_profile
def known_model(E, dtype):
    nodes = [out('Softmax', 'sm', ['e1'], ['y'], axis=-1), out('Identity', 'id', ['e'], ['e1']), out('MatMul', 'm2', ['d', 'w'], ['e']),
             out('Add', 'res', ['x', 'b'], ['d'])]
    inits = [weight(E, 'w', [6, 8], dtype), weight(E, 'b', [6], dtype)]
    return model(E, nodes, [('x', ['N', 6], dtype)], [('y', None, dtype)], inits)


def h_model_profile(E, exclude, hidden, csv):
    """model_profile reorders, infers, profiles and prints; a call leaves no trace in the next one"""
    n = E.int('n', 1, 512)
    pk = E.m('')
    before = set(pk.NoMacsOps)
    cost = {'sm': (n * 8 * 36, n * 8, 0), 'id': (0, n * 8, 0), 'm2': (n * 48, n * 8, 48), 'res': (n * 6, n * 6, 6)}
    op = {'sm': 'Softmax', 'id': 'Identity', 'm2': 'MatMul', 'res': 'Add'}
    d = tempfile.mkdtemp(prefix='verif_c10_')

    def run(tag, exclude, hidden):
        p = os.path.join(d, tag + ('.csv' if csv else '.txt'))
        kw = {} if hidden is None else {'hidden_ops': hidden}
        r = E.call(pk.model_profile, known_model(E, f32), {'x': E.opaque([n, 6], f32, 0)}, exclude_ops=exclude, save_profile=p, **kw)
        if not r.ok:
            E.fail(f'{tag}: model_profile raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        gone = set(exclude or ()) | ({'Identity', 'Constant', 'Shape', 'Squeeze', 'Unsqueeze', 'Reshape', 'ConstantOfShape', 'Cast', 'Pad', 'Concat',
                                      'Slice', 'Gather'} if hidden is None else set(hidden))
        check_table(E, table(E, p, csv), [k for k in cost if op[k] not in gone], cost, 4, 1, tag)
    try:
        run('first', exclude, hidden)
        run('second', None, None)
        E.check(set(pk.NoMacsOps) == before, 'the default set of hidden operators is unchanged')
    finally:
        shutil.rmtree(d)
        pk.NoMacsOps.clear()
        pk.NoMacsOps.update(before)


def h_badop(E):
    n = E.int('n', 1, 512)
    r = E.call(E.m('').model_profile, known_model(E, f32), {'x': E.opaque([n, 6], f32, 0)}, exclude_ops={'NotAnOp'})
    E.check(not r.ok, 'an unknown operator name is refused')


def obligations(tier):
    obs = []
    for n in T:
        for fold in (False, True):
            obs.append(Ob(f'{n}-{"fold" if fold else "raw"}', h_generic, dict(name=n, folding=fold), weight=3))
    for dt in DTS:
        for fold in (False, True):
            for order in (0, 1):
                obs.append(Ob(f'known-{dt}-{fold}-{order}', h_known, dict(dt=dt, folding=fold, order=order, twice=False)))
        obs.append(Ob(f'known-{dt}-twice', h_known, dict(dt=dt, folding=False, order=0, twice=True)))
        obs.append(Ob(f'exclude-{dt}', h_exclude, dict(dt=dt), weight=3))
    obs.append(Ob('before', h_before, {}))
    for csv, fold in ((True, False), (False, True)):
        obs.append(Ob(f'sparse-{"csv" if csv else "txt"}', h_sparse, dict(csv=csv, fold=fold), weight=5))
    for csv in (True, False):
        for metric in ('MACs', 'FLOPs'):
            for ex in (False, True):
                obs.append(Ob(f'table-{"csv" if csv else "txt"}-{metric}-{ex}', h_table, dict(csv=csv, metric=metric, exclude=ex)))
        for nm, ex, hid in (('plain', None, None), ('exclude', {'Softmax'}, None), ('hidden', None, {'Add'}), ('both', {'MatMul', 'Softmax'}, {'Add'}),
                            ('nothing-hidden', None, set()), ('list', ['Softmax'], ['Identity'])):
            obs.append(Ob(f'model_profile-{nm}-{"csv" if csv else "txt"}', h_model_profile, dict(exclude=ex, hidden=hid, csv=csv)))
    obs.append(Ob('bad-op', h_badop, {}))
    return obs


BOUNDS = {'all': 'the 14 graph families of C09 at all their sizes, folded and not; an eight-node MatMul/Add/Relu/Softmax model with a shared weight, 1-512 (0-3*10^7 for the tables) '
                 'rows, in f16/f32/f64, in two node orders, every subset of its operator types excluded, both metrics, text and csv'}
OUTSIDE = 'which block pattern a sparse weight has (C21); rank-0 tensors count as zero elements; percentages are checked to 0.01 %'
ASSUMPTIONS = ['numbers rendered into text are tracked as tokens, so their digits are checked only on the replayed values']
