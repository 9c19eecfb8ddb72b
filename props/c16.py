"""C16 - command line, input re-declaration and weight export do what they are asked."""
import os
import posixpath
import shutil
import tempfile
import warnings
import numpy as np
from symex import fonnx
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch, info_of, node_of, decode, same_node
from .c10 import table

f32, f16, f64, i64, i32, u8 = np.float32, np.float16, np.float64, np.int64, np.int32, np.uint8


# ------------------------------------------------------------------ model_io_modify
def h_io(E, kinds, which, rank_ok, lens):
    """custom_io texts: digits set a size, anything else names the dimension; everything else stays"""
    before = [('N', None, 7, 'H')[i % 4] for i in range(len(kinds))]
    parts, want = [], []
    for i, k in enumerate(kinds):
        if k == 'n':
            t = E.text(f'd{i}', lens, '0123456789')
            parts.append(t)
            v = 0
            for c in range(lens):
                v = v * 10 + (E.int_of_char(t, c))
            want.append(v)
        else:
            t = E.text(f'd{i}', lens, 'abNHW_') if k == 's' else E.text(f'd{i}', 2, 'ab0')
            if k == 'm':
                E.assume(E.any(t[0] == 'a', t[0] == 'b', t[1] == 'a', t[1] == 'b'))
            parts.append(t)
            want.append(t)
    s = parts[0]
    for p in parts[1:]:
        s = s + 'x' + p
    w = E.int_array('w', [3], -9, 9, i64)
    decl = before if rank_ok else before + [5]
    other = ['B', 3]
    nodes = [out('Custom', 'n0', ['x', 'w', 'z'], ['y', 't'], axis=1), out('Relu', 'n1', ['t'], ['u'])]
    io = {'x': decl, 'z': other, 'y': other, 'u': other}
    if which == 'y':
        io.update({'x': other, 'y': decl})
    m = model(E, nodes, [('x', io['x'], f32), ('z', io['z'], i32)], [('y', io['y'], f16), ('u', io['u'], f32)], [init(E, 'w', w)])
    nodes0 = [node_of(E, n) for n in m.graph.node]
    with scratch(E) as d:
        p = os.path.join(d, 'o.onnx')
        r = E.call(E.m('').model_io_modify, m, p, {which: s, 'nothing': '1x2'})
        if not rank_ok:
            E.check(not r.ok, 'a different number of dimensions is refused')
            return
        if not r.ok:
            E.fail(f'model_io_modify raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        q = onnx_of(E).load_model(p).graph
    E.check(len(q.node) == 2, 'the same nodes')
    for a, b in zip(q.node, nodes0):
        same_node(E, node_of(E, a), b, 'node')
    E.check([t.name for t in q.initializer] == ['w'] and E.same(decode(E, q.initializer[0])[2], E.elems(w)), 'the same weights')
    got = {v.name: info_of(E, v) for v in list(q.input) + list(q.output)}
    E.check([v.name for v in q.input] == ['x', 'z'] and [v.name for v in q.output] == ['y', 'u'], 'the same inputs and outputs')
    for nm, t in (('x', 1), ('z', 6), ('y', 10), ('u', 1)):
        E.check(got[nm][0] == t, f'element type of {nm}')
        if nm == which:
            E.check(len(got[nm][1]) == len(want), 'rank')
            for i, (a, b, k) in enumerate(zip(got[nm][1], want, kinds)):
                if k == 'n':
                    E.check(a is not None and not isinstance(a, str) and E.eq(a, b), f'size of dimension {i}')
                else:
                    E.check(a is not None and E.text_eq(a, b), f'name of dimension {i}')
        else:
            E.check(got[nm][1] == io[nm], f'{nm} is unchanged')


# ------------------------------------------------------------------ export of weights
class Recorder:
    """numpy.save replaced by a recorder: nothing is written"""

    def __init__(self, E):
        self.E, self.files = E, []

    def __enter__(self):
        self.mod = self.E.np
        self.old = getattr(self.mod, 'save', None)
        self.mod.save = lambda f, a, *k, **kw: self.files.append((f, a))
        return self

    def __exit__(self, *a):
        if self.old is None:
            del self.mod.save
        else:
            self.mod.save = self.old


def h_export(E, n, dt, fp16, listed):
    """every requested weight lands in its own folder's file, whatever characters its name has"""
    nm = E.text('name', n, 'ab/\\.')
    dtp = np.dtype(dt).type
    isf = np.dtype(dt).kind == 'f'
    a = E.real_array('a', [2], -9, 9, dtp) if isf else E.int_array('a', [2], 0, 9, dtp)
    b = E.int_array('b', [1], -9, 9, i64)
    ox = onnx_of(E)
    ia, ib = init(E, 'A', a), init(E, 'other', b)
    ia.name = nm
    nodes = [ox.helper.make_node('Custom', ['x'], ['y'], name='n0')]
    nodes[0].input.append(nm)
    nodes[0].input.append('other')
    vi = ox.helper.make_tensor_value_info
    m = ox.helper.make_model(ox.helper.make_graph(nodes, 'g', [vi('x', 1, [2])], [vi('y', 1, [2])], initializer=[ia, ib]))
    d = tempfile.mkdtemp(prefix='verif_c16_')
    try:
        with Recorder(E) as rec:
            fold = os.path.join(d, 'sub', 'folder')
            r = E.call(E.m('').model_export_tensors_numpy, m, {'all': None, 'one': [nm], 'missing': ['nope', nm], 'other': ['other']}[listed], fold, fp16)
        if not r.ok:
            E.fail(f'export raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        E.check(os.path.isdir(fold), 'the folder is created')
        want = {'all': 2, 'one': 1, 'missing': 1, 'other': 1}[listed]
        E.check(len(rec.files) == want, 'one file per requested weight')
        expect = []
        if listed != 'other':
            expect.append((nm, a, f16 if fp16 and dtp in (f32, f64) else dtp))
        if listed in ('all', 'other'):
            expect.append(('other', b, i64))
        for (path, got), (name, vals, wdt) in zip(rec.files, expect):
            E.check(len(path) > len(fold) + 1 and E.text_eq(path[:len(fold) + 1], fold + '/'), 'the file is in the folder')
            tail = path[len(fold) + 1:]
            E.check(E.all(*[E.no(E.any(E.text_eq(tail[i], '/'), E.text_eq(tail[i], '\\'))) for i in range(len(tail))]), 'the file name has no separators')
            E.check(len(tail) == len(name) + 4 and E.text_eq(tail[len(name):], '.npy'), 'file extension')
            for i in range(len(name)):
                if len(tail) == len(name) + 4:
                    sep = E.any(E.text_eq(name[i], '/'), E.text_eq(name[i], '\\'))
                    E.check(E.any(E.all(sep, E.text_eq(tail[i], '_')), E.all(E.no(sep), E.text_eq(tail[i], name[i]))), 'the file is named after the weight')
            E.check(np.dtype(got.dtype) == np.dtype(wdt), 'element type of the file')
            ref = vals if np.dtype(wdt) == np.dtype(vals.dtype) else vals.astype(wdt)
            E.check(list(got.shape) == list(vals.shape) and E.same(E.elems(got), E.elems(ref)), 'the values of the weight')
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ the command line
def cli_model(E):
    nodes = [out('MatMul', 'm2', ['d', 'w'], ['e']), out('Softmax', 'sm', ['e'], ['y'], axis=-1), out('Add', 'res', ['x', 'b'], ['d']), out('Sub', 'k0', ['b', 'b'], ['k'])]
    nodes.append(out('Add', 'k1', ['y', 'sc'], ['z']))
    return model(E, nodes, [('x', ['N', 6], f32), ('sc', ['M', 8], f32)], [('z', ['N', 8], f32), ('k', [6], f32)],
                 [weight(E, 'w', [6, 8], f32), init(E, 'b', E.array([1, 2, 3, 4, 5, 6], f32))])


def h_cli_profile(E, form, short, ops):
    n = E.int('n', 1, 512)
    with scratch(E) as d:
        p, o, f = os.path.join(d, 'in.onnx'), os.path.join(d, 'o.onnx'), os.path.join(d, 'p.csv')
        onnx_of(E).save_model(cli_model(E), p)
        argv = ['-i' if short else '--in', p, '-o' if short else '--out', o, '-f' if short else '--file', f]
        if form == 'typed':
            argv += ['-m', 'profile', '-d', f'x:f32:{n}x6', 'sc:f32:1x8:' + 'x'.join(['0.25'] * 8)]
        elif form == 'untyped':
            argv += ['--dynamic_shapes', f'x:{n}x6', 'sc:f32:1x8']
        else:
            argv += ['--mode', 'profile', '-d', f'x:f32:{n}x6', f'sc:int32:{n}x8']
        if ops:
            argv += ['-e', ops]
        r = E.cli(argv)
        if not r.ok:
            E.fail(f'the command line fails: {type(r.exc).__name__} {str(r.exc)[:80]}')
        g = onnx_of(E).load_model(o).graph
        got = {v.name: info_of(E, v) for v in list(g.input) + list(g.output) + list(g.value_info)}
        for nm, s in (('x', [n, 6]), ('d', [n, 6]), ('e', [n, 8]), ('y', [n, 8]), ('z', [n, 8]), ('k', [6])):
            E.check(nm in got and E.same(got[nm][1], s), f'shape of {nm} in the saved model')
        E.check(got['sc'][0] == (6 if form == 'int32' else 1), 'element type of a given input')
        E.check(sorted(t.name for t in g.initializer) == ['b', 'w'], 'the weights are saved')
        rows = table(E, f, True)
        gone = set((ops or '').split(','))
        names = {'m2': 'MatMul', 'sm': 'Softmax', 'res': 'Add', 'k1': 'Add', 'k0': 'Sub'}
        E.check(sorted(r[0] for r in rows[1:] if r[0] in names) == sorted(k for k in names if names[k] not in gone), 'profiled nodes')
        macs = {'m2': n * 48, 'sm': n * 8 * 36, 'res': n * 6, 'k1': n * 8, 'k0': 6}
        col = rows[0].index('Forward_MACs')
        for r in rows[1:]:
            if r[0] in names:
                E.check(E.num(r[col]) is not None and E.eq(E.num(r[col]), macs[r[0]]), f'MACs of {r[0]}')
            if r[0] == 'Total':
                E.check(E.eq(E.num(r[col]), sum(macs[k] for k in macs if names[k] not in gone)), 'total MACs')


def h_cli_bad(E, argv):
    n = E.int('n', 1, 512)
    with scratch(E) as d:
        p = os.path.join(d, 'in.onnx')
        onnx_of(E).save_model(cli_model(E), p)
        r = E.cli([a.replace('IN', p).replace('DIM', str(n)) for a in argv])
        E.check(not r.ok, 'refused')


def h_cli_modes(E, mode):
    k = E.int('k', 1, 10 ** 6)
    with scratch(E) as d, Recorder(E) as rec:
        p, o = os.path.join(d, 'in.onnx'), os.path.join(d, 'o.onnx')
        onnx_of(E).save_model(cli_model(E), p)
        if mode == 'io_modify':
            r = E.cli(['-m', mode, '-i', p, '-o', o, '-d', 'x:K2x6', 'sc:1x8', 'z:12xW'])
        elif mode == 'constant_folding':
            r = E.cli(['-m', mode, '-i', p, '-o', o])
        elif mode.startswith('export_all'):
            r = E.cli(['-m', 'export_tensors', '-i', p, '-o', os.path.join(d, 'f')] + (['--fp16'] if mode == 'export_all16' else []))
        else:
            r = E.cli(['-m', 'export_tensors', '-i', p, '-o', os.path.join(d, 'f'), '--fp16', '--names', 'b', 'zz'])
        if not r.ok:
            E.fail(f'the command line fails: {type(r.exc).__name__} {str(r.exc)[:80]}')
        if mode.startswith('export'):
            got = [(os.path.basename(f), np.dtype(a.dtype), list(a.shape)) for f, a in rec.files]
            ft = np.dtype(f16 if mode == 'export_all16' else f32)
            E.check(got == ([('w.npy', ft, [6, 8]), ('b.npy', ft, [6])] if mode.startswith('export_all') else [('b.npy', np.dtype(f16), [6])]), 'exported files')
            E.check(all(os.path.dirname(f) == os.path.join(d, 'f') for f, _ in rec.files), 'folder')
            return
        g = onnx_of(E).load_model(o).graph
        info = {v.name: info_of(E, v) for v in list(g.input) + list(g.output)}
        if mode == 'io_modify':
            E.check(info == {'x': (1, ['K2', 6]), 'sc': (1, [1, 8]), 'z': (1, [12, 'W']), 'k': (1, [6])}, 'declarations')
            E.check(len(g.node) == 5, 'nodes')
        else:
            E.check(sorted(n.name for n in g.node) == ['k1', 'm2', 'res', 'sm'], 'folded nodes')
            ini = {t.name: decode(E, t) for t in g.initializer}
            E.check(sorted(ini) == ['b', 'k', 'w'] and ini['k'][2] == [0.0] * 6, 'folded values')


def h_io_many(E, order):
    """several inputs and outputs of one model are re-declared in one call, sizes to names and names to sizes; the rest of the model stays"""
    ox = onnx_of(E)
    a = [E.int(f'a{i}', 0, 10 ** 6) for i in range(3)]
    w = E.int_array('w', [1, 2], -9, 9, i64)
    s = E.array(5, f16)
    nodes = [out('Custom', 'n0', ['x', 'w', 'x1', ''], ['x_1', 'y2'], axis=[1, 2], mode='m'), out('Relu', 'n1', ['x_1'], ['y']), out('Add', 'n2', ['x1', 's'], ['xx']), out('Neg', 'n3', ['xx'], ['y1'])]
    decl = {'x': (1, ['N', a[0], None]), 'x1': (6, [a[1]]), 'y2': (7, [0, 'N', 'M', 4, a[2]]), 'y': (10, ['K', 1]), 'y1': (1, ['N'])}
    T = {v: k for k, v in DT.items()}
    mk = lambda k: (k, decl[k][1], T[decl[k][0]])
    m = model(E, nodes, [mk('x'), mk('x1')], [mk('y2'), mk('y'), mk('y1')], [init(E, 'w', w), init(E, 's', s)], infos=[('x_1', [a[0], 'N'], f32), ('xx', [3, None], f16)])
    m.ir_version = E.int('ir', 1, 20)
    ir = m.ir_version
    o = ox.OperatorSetIdProto()
    o.domain, o.version = 'my.ops', 4
    m.opset_import.append(o)
    ops = [(p.domain, p.version) for p in m.opset_import]
    nodes0 = [node_of(E, n) for n in m.graph.node]
    new = {'x': '12xax007', 'x1': 'len', 'y2': 'Nx2xHWx4x5', 'y': '0xK', 'y1': '1000000'}
    want = {'x': [12, 'a', 7], 'x1': ['len'], 'y2': ['N', 2, 'HW', 4, 5], 'y': [0, 'K'], 'y1': [1000000]}
    keys = {'all': ['x', 'x1', 'y2', 'y', 'y1'], 'reversed': ['y1', 'y', 'y2', 'x1', 'x'], 'some': ['y', 'x1'], 'last': ['y1'], 'first': ['x'], 'none': []}[order]
    with scratch(E) as d:
        p = os.path.join(d, 'o.onnx')
        r = E.call(E.m('').model_io_modify, m, p, {k: new[k] for k in keys})
        if not r.ok:
            E.fail(f'model_io_modify raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        q = onnx_of(E).load_model(p)
    g = q.graph
    E.check(len(g.node) == len(nodes0), 'the same nodes')
    for x, y in zip(g.node, nodes0):
        same_node(E, node_of(E, x), y, 'node')
    E.check(E.eq(q.ir_version, ir) and [(p.domain, p.version) for p in q.opset_import] == ops, 'IR version and operator sets')
    ini = {t.name: decode(E, t) for t in g.initializer}
    E.check(sorted(ini) == ['s', 'w'] and E.same(ini['w'][2], E.elems(w)) and ini['w'][1] == [1, 2] and ini['s'][1] == [], 'the same weights')
    E.check([v.name for v in g.input] == ['x', 'x1'] and [v.name for v in g.output] == ['y2', 'y', 'y1'], 'the same inputs and outputs')
    got = {v.name: info_of(E, v) for v in list(g.input) + list(g.output) + list(g.value_info)}
    E.check(sorted(got) == ['x', 'x1', 'x_1', 'xx', 'y', 'y1', 'y2'], 'the same declared intermediates')
    ref = {k: (decl[k][0], want[k] if k in keys else decl[k][1]) for k in decl}
    ref.update({'x_1': (1, [a[0], 'N']), 'xx': (10, [3, None])})
    for k in ref:
        if k in got:
            E.check(got[k][0] == ref[k][0] and len(got[k][1]) == len(ref[k][1]) and E.all(*[E.eq(u, v) if u is not None and v is not None else u is v for u, v in zip(got[k][1], ref[k][1])]),
                    f'declaration of {k}')


def h_export_many(E, names, fp16, folder):
    """weights of every rank, element type and storage, in any requested order"""
    ws = {'s': E.array(5, f32), 'p/q': E.real_array('b', [2, 1, 2], -9, 9, f64), 'e': E.array(np.zeros((0, 3), f32), f32), 'i\\j': E.array(3, i64), 'h': E.real_array('h', [1], -9, 9, f16),
          'u/v\\w//': E.int_array('u', [3], 0, 200, u8), 'k': E.real_array('k', [2, 2], -9, 9, f32), 't': E.array(np.array([True, False]), np.bool_), 'd': E.array(7, f64), 'l': E.int_array('l', [2], -9, 9, i32)}
    order = list(ws)
    m = model(E, [out('Custom', 'n0', ['x'] + order[:4], ['t1']), out('Custom', 'n1', ['t1'] + order[4:], ['y'])], [('x', [2])], [('y', [2])], [init(E, k, ws[k], raw=i % 2 == 0) for i, k in enumerate(order)])
    ask = {'all': None, 'reversed': order[::-1], 'missing': ['nope', 'd', 's/', 'u/v\\w//', 'x', 's', 'K', 'e'], 'empty': [], 'twice': ['k', 'k', 'l']}[names]
    d = tempfile.mkdtemp(prefix='verif_c16_')
    try:
        fold = {'sub': os.path.join(d, 'a', 'b'), 'exists': d, 'none': None}[folder]
        with Recorder(E) as rec:
            r = E.call(E.m('').model_export_tensors_numpy, m, ask, fold, fp16)
        if not r.ok:
            E.fail(f'export raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        req = [k for k in (order if ask is None else ask) if k in ws]
        base = os.path.abspath(fold or '.')
        got = {os.path.abspath(f): a for f, a in rec.files}
        want = {os.path.join(base, k.replace('/', '_').replace('\\', '_') + '.npy'): k for k in req}
        E.check(sorted(got) == sorted(want), 'one file per requested weight')
        for f, k in want.items():
            if f in got:
                a, w = got[f], ws[k]
                dt = f16 if fp16 and np.dtype(w.dtype) in (np.dtype(f32), np.dtype(f64)) else w.dtype
                E.check(np.dtype(a.dtype) == np.dtype(dt), f'element type of {k}')
                E.check(list(a.shape) == list(w.shape) and E.same(E.elems(a), E.elems(w.astype(dt))), f'values of {k}')
    finally:
        shutil.rmtree(d)


def h_cli_values(E, big, sign):
    """values given on the command line are the values of the input, exactly"""
    n = E.int('n', 1, 40)
    st, sp = E.int('st', 1, 50), E.int('sp', 1, 4)
    v = E.int('v', 2 ** 24 + 1, 2 ** 31 - 1) if big else E.int('v', 1, 512)
    if big:
        E.assume(v % 2 == 1)
    nodes = [out('Slice', 'sl', ['x', 'st', 'en', 'ax', 'sp'], ['t']), out('Expand', 'ex', ['one', 's'], ['z'])]
    m = model(E, nodes, [('x', ['N']), ('st', [1], i32), ('sp', [1], i32), ('one', [1, 1]), ('s', [2], i32)], [('t', ['K']), ('z', ['A', 'B'])], [init(E, 'en', E.array([2 ** 31 - 1], i32)), init(E, 'ax', E.array([0], i32))])
    with scratch(E) as d:
        p, o = os.path.join(d, 'in.onnx'), os.path.join(d, 'o.onnx')
        onnx_of(E).save_model(m, p)
        r = E.cli(['-i', p, '-o', o, '-f', os.path.join(d, 'p.csv'), '-d', f'x:f32:{n}', f'st:int32:1:{"-" if sign else ""}{st}', f'sp:int32:1:{sp}', 'one:f32:1x1:-1.5', f's:int32:2:1x{v}'])
        if not r.ok:
            E.fail(f'the command line fails: {type(r.exc).__name__} {str(r.exc)[:80]}')
        g = onnx_of(E).load_model(o).graph
        got = {t.name: info_of(E, t) for t in list(g.input) + list(g.output)}
        rest = E.ite(st <= n, n - st, 0) if not sign else E.ite(st <= n, st, n)
        E.check(len(got['t'][1]) == 1 and E.eq(got['t'][1][0], (rest + sp - 1) // sp), 'a start and step given as values')
        E.check(len(got['z'][1]) == 2 and E.eq(got['z'][1][0], 1) and E.eq(got['z'][1][1], v), 'a shape given as values')
        E.check(got['s'][0] == 6 and got['one'][0] == 1, 'element types')


def obligations(tier):
    obs = []
    for which in ('x', 'y'):
        for kinds in ('n', 's', 'm', 'nn', 'sn', 'ns', 'nms', 'nsns'):
            for lens in (1, 2, 3):
                if len(kinds) > 2 and lens > 1 and tier != 'thorough':
                    continue
                obs.append(Ob(f'io-{which}-{kinds}-{lens}', h_io, dict(kinds=kinds, which=which, rank_ok=True, lens=lens)))
        obs.append(Ob(f'io-{which}-rank', h_io, dict(kinds='ns', which=which, rank_ok=False, lens=1)))
    for n in (1, 2, 3, 4) if tier != 'thorough' else (1, 2, 3, 4, 5, 6):
        for listed in ('all', 'one', 'missing', 'other'):
            obs.append(Ob(f'export-{n}-{listed}', h_export, dict(n=n, dt='float32', fp16=False, listed=listed)))
    for dt in ('float32', 'float64', 'float16', 'int64', 'int32', 'uint8'):
        for fp in (False, True):
            for listed in ('all', 'one'):
                obs.append(Ob(f'export-{dt}-{fp}-{listed}', h_export, dict(n=1, dt=dt, fp16=fp, listed=listed)))
    for form in ('typed', 'untyped', 'int32'):
        for short in (True, False):
            for ops in (None, 'Softmax', 'MatMul,Add'):
                obs.append(Ob(f'cli-profile-{form}-{short}-{ops}', h_cli_profile, dict(form=form, short=short, ops=ops)))
    for i, a in enumerate((['-i', 'IN', '-d', 'x:f99:DIMx6', 'sc:f32:1x8'], ['-i', 'IN'], ['-o', 'x.onnx'], ['-i', 'IN', '-m', 'rm'],
                           ['-i', 'IN', '-d', 'x:f32:DIMx7', 'sc:f32:1x8'], ['-i', 'IN', '-d', 'x:f32:DIMx6', 'sc:f32:1x8', '-e', 'NotAnOp'])):
        obs.append(Ob(f'cli-bad-{i}', h_cli_bad, dict(argv=a)))
    obs += [Ob(f'io-many-{o}', h_io_many, dict(order=o)) for o in ('all', 'reversed', 'some', 'last', 'first', 'none')]
    for nm in ('all', 'reversed', 'missing', 'empty', 'twice'):
        for fp in (False, True):
            obs += [Ob(f'export-many-{nm}-{fp}-{fo}', h_export_many, dict(names=nm, fp16=fp, folder=fo)) for fo in ('sub', 'exists', 'none')]
    obs += [Ob(f'cli-values-{b}-{sg}', h_cli_values, dict(big=b, sign=sg)) for b in (False, True) for sg in (False, True)]
    obs += [Ob(f'cli-{m}', h_cli_modes, dict(mode=m)) for m in ('io_modify', 'constant_folding', 'export_all', 'export_all16', 'export_names')]
    return obs


BOUNDS = {'all': 'custom_io texts of 1-4 parts, each part any text of 1-3 characters (digits, letters, mixed); weight names: every text of 1-4 characters (6 thorough) over '
                 'letters, dot, slash and backslash, eight element types, ranks 0-3, with and without fp16, all or listed weights in any order; up to five re-declarations in one call; command lines: the four modes, short and '
                 'long options, typed, untyped and valued -d forms at every size 1..512, three exclusion lists, int32 values up to 2^31-1, six faulty command lines'}
OUTSIDE = 'tensor names with a colon in -d; two weights whose names differ only in separators (they share a file); argparse itself'
ASSUMPTIONS = ['numpy.save is replaced by a recorder', 'sizes in -d texts are symbolic tokens inside real text']
