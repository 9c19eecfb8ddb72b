"""C15 - saving a model writes the same model back."""
import os
import shutil
import tempfile
import pathlib
import numpy as np
import onnx as _onnx
from symex import fonnx
from symex.runner import Ob
from .lib import *
from .glib import *

f32, f16, f64, i64, i32, u8, i8 = np.float32, np.float16, np.float64, np.int64, np.int32, np.uint8, np.int8
AP = _onnx.AttributeProto
NPD = {v: k for k, v in DT.items()}


class scratch:
    def __init__(self, E):
        self.E = E

    def __enter__(self):
        fonnx.FILES.clear()
        self.d = tempfile.mkdtemp(prefix='verif_c15_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)
        fonnx.FILES.clear()


def decode(E, p):
    """(element type, dims, values) of a TensorProto, read independently of onnx_tool"""
    if not E.sym:
        a = _onnx.numpy_helper.to_array(p)
        return a.dtype, list(a.shape), a.reshape(-1).tolist()
    dt = NPD[p.data_type]
    raw = p.raw_data
    if isinstance(raw, fonnx.SymBytes):
        vals = list(raw.elems)
    elif len(raw):
        vals = np.frombuffer(raw, dt).tolist()
    else:
        vals = list(p.float_data) + list(p.int32_data) + list(p.int64_data) + list(p.double_data) + list(p.uint64_data)
        if dt == np.dtype(f16):
            vals = [v.v if isinstance(v, fonnx.HalfBits) else np.array([v], np.uint16).view(f16)[0].item() for v in vals]
    return dt, list(p.dims), vals


def attr_of(E, a):
    v = {AP.INT: lambda: a.i, AP.FLOAT: lambda: a.f, AP.STRING: lambda: a.s, AP.INTS: lambda: list(a.ints), AP.FLOATS: lambda: list(a.floats),
         AP.STRINGS: lambda: list(a.strings), AP.TENSOR: lambda: decode(E, a.t), AP.GRAPH: lambda: [node_of(E, n) for n in a.g.node]}[a.type]()
    return a.type, v


def node_of(E, n):
    return dict(op=n.op_type, name=n.name, domain=n.domain, ins=list(n.input), outs=list(n.output), attrs={a.name: attr_of(E, a) for a in n.attribute},
                nattr=len(n.attribute))


def info_of(E, v):
    t = v.type.tensor_type
    ds = []
    for d in t.shape.dim:
        ds.append(d.dim_value if d.HasField('dim_value') else (d.dim_param if d.HasField('dim_param') else None))
    return t.elem_type, ds


def near(E, a, b):
    return E.close(a, b, 0 if E.sym else 1e-4)


def same_attr(E, a, b, label):
    E.check(a[0] == b[0], f'{label}: attribute type')
    if a[0] != b[0]:
        return
    t, x, y = a[0], a[1], b[1]
    if t in (AP.FLOAT,):
        E.check(near(E, x, y), f'{label}: value')
    elif t == AP.FLOATS:
        E.check(len(x) == len(y) and E.all(*[near(E, p, q) for p, q in zip(x, y)]), f'{label}: values')
    elif t == AP.TENSOR:
        E.check(x[0] == y[0] and x[1] == y[1] and E.same(x[2], y[2]), f'{label}: tensor')
    elif t == AP.GRAPH:
        E.check(len(x) == len(y), f'{label}: subgraph nodes')
        for p, q in zip(x, y):
            same_node(E, p, q, label)
    else:
        E.check(E.same(x, y) if isinstance(x, list) else E.eq(x, y), f'{label}: value')


def same_node(E, got, want, label):
    for k in ('op', 'name', 'domain', 'ins', 'outs'):
        E.check(got[k] == want[k], f'{label}: {k} of node {want["name"]}')
    E.check(sorted(got['attrs']) == sorted(want['attrs']) and got['nattr'] == len(got['attrs']), f'{label}: attribute names of {want["name"]}')
    for k in want['attrs']:
        if k in got['attrs']:
            same_attr(E, got['attrs'][k], want['attrs'][k], f'{label}: {want["name"]}.{k}')


def roundtrip(E, m, how='proto', cfg={}, edit=None, opts={}, infer=None):
    """Model(m) .. save_model; returns (Model, the saved proto)"""
    M_ = E.m('model').Model
    with scratch(E) as d:
        p = os.path.join(d, 'in.model.onnx')
        src = m
        if how != 'proto':
            onnx_of(E).save_model(m, p)
            src = p if how == 'str' else pathlib.Path(p)
        r = E.call(M_, src, dict(cfg))
        if not r.ok:
            E.fail(f'loading raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        M = r.val
        E.check(M.valid is True and M.modelname == ('' if how == 'proto' else 'in.model'), 'model name')
        if infer is not None:
            r = E.call(M.graph.shape_infer, infer)
            if not r.ok:
                E.fail(f'shape_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        if edit is not None:
            edit(M)
        q = os.path.join(d, 'out.onnx')
        r = E.call(M.save_model, q, **opts)
        if not r.ok:
            E.fail(f'save_model raises {type(r.exc).__name__}: {str(r.exc)[:100]}')
        return M, onnx_of(E).load_model(q)


# ------------------------------------------------------------------ attributes
def attr_value(E, kind):
    ox = onnx_of(E)
    n = E.choice('len', [1, 2, 3]) if kind in ('ints', 'floats') else 0
    if kind == 'int':
        return E.int('a', -2 ** 63, 2 ** 63 - 1)
    if kind == 'float':
        return E.real('a', -100, 100)
    if kind == 'ints':
        return E.ints('a', n, -2 ** 63, 2 ** 63 - 1)
    if kind == 'floats':
        return [E.real(f'a{i}', -100, 100) for i in range(n)]
    if kind == 'string':
        return E.choice('a', ['SAME_UPPER', '', 'x'])
    if kind == 'strings':
        return E.choice('a', [['Sigmoid', 'Tanh'], ['one']])
    if kind.startswith('tensor'):
        dt = {'tensor-f32': f32, 'tensor-i64': i64, 'tensor-f16': f16, 'tensor-u8': u8}[kind]
        a = E.real_array('a', [2, 2], -100, 100, dt) if np.dtype(dt).kind == 'f' else E.int_array('a', [2, 2], 0, 200, dt)
        return init(E, 'value', a)
    if kind == 'graph':
        return ox.helper.make_graph([ox.helper.make_node('Custom', ['x'], ['t'], name='b', k=E.int('a', -9, 9), domain='my.ops'),
                                     ox.helper.make_node('Neg', ['t'], ['u'], name='b2')], 'body', [], [ox.helper.make_tensor_value_info('u', 1, None)])
    raise AssertionError(kind)


def h_attr(E, kind, op, domain):
    ox = onnx_of(E)
    n = ox.helper.make_node(op, ['x', '', 'w'], ['y', 'z'], name='n0', other=3, **({'domain': domain} if domain else {}))
    if kind.startswith('empty'):
        a = ox.AttributeProto(name='att', type={'empty-ints': AP.INTS, 'empty-floats': AP.FLOATS, 'empty-strings': AP.STRINGS}[kind])
    else:
        a = ox.helper.make_attribute('att', attr_value(E, kind))
    n.attribute.append(a)
    want = node_of(E, n)
    vi = ox.helper.make_tensor_value_info
    g = ox.helper.make_graph([n], 'g', [vi('x', 1, [2])], [vi('y', 1, [2])], initializer=[weight(E, 'w', [2])])
    _, q = roundtrip(E, ox.helper.make_model(g))
    E.check(len(q.graph.node) == 1, 'one node')
    same_node(E, node_of(E, q.graph.node[0]), want, kind)


OPS = {'Conv': dict(kernel_shape='ii', strides='ii', pads='iiii', dilations='ii', group='i', auto_pad=b'NOTSET'), 'Gemm': dict(alpha='f', beta='f', transA='i', transB='i'),
       'Transpose': dict(perm='ii'), 'Softmax': dict(axis='i'), 'Cast': dict(to='t'), 'ReduceMean': dict(axes='ii', keepdims='i'),
       'Concat': dict(axis='i'), 'LSTM': dict(hidden_size='i', direction=b'bidirectional', activations=[b'Tanh', b'Relu']),
       'Resize': dict(mode=b'nearest', cubic_coeff_a='f', antialias='i'), 'Pad': dict(mode=b'edge', pads='ii', value='f'), 'Upsample': dict(scales='ff'),
       'MaxPool': dict(kernel_shape='i', ceil_mode='i', storage_order='i'), 'BatchNormalization': dict(epsilon='f', momentum='f'), 'Clip': dict(min='f', max='f'),
       'LeakyRelu': dict(alpha='f'), 'Slice': dict(starts='ii', ends='ii', axes='ii'), 'Squeeze': dict(axes='i'), 'Gather': dict(axis='i'), 'Split': dict(axis='i', split='ii'),
       'Constant': dict(value='T'), 'ConstantOfShape': dict(value='T'), 'QuantizeLinear': dict(axis='i'), 'TopK': dict(axis='i', largest='i', sorted='i'),
       'Flatten': dict(axis='i'), 'OneHot': dict(axis='i'), 'ScatterND': dict(reduction=b'add'), 'DepthToSpace': dict(blocksize='i', mode=b'CRD'),
       'ConvTranspose': dict(kernel_shape='ii', output_padding='ii'), 'Dropout': dict(ratio='f'), 'CumSum': dict(exclusive='i', reverse='i'),
       'RoiAlign': dict(output_height='i', spatial_scale='f'), 'Trilu': dict(upper='i'), 'Mod': dict(fmod='i'), 'NonMaxSuppression': dict(center_point_box='i'),
       'LayerNormalization': dict(axis='i', epsilon='f'), 'GRU': dict(hidden_size='i', linear_before_reset='i'), 'ReduceSum': dict(keepdims='i', noop_with_empty_axes='i')}


def schema_ops():
    """every operator of the default domain with all the plain attributes its newest definition has"""
    A = _onnx.defs.OpSchema.AttrType
    code = {A.INT: 'i', A.FLOAT: 'f', A.INTS: 'ii', A.FLOATS: 'ff', A.TENSOR: 'T', A.STRINGS: [b'ab', b'c']}
    r = {}
    for sc in _onnx.defs.get_all_schemas():
        if sc.domain or any(a.type == A.GRAPH for a in sc.attributes.values()):
            continue
        kw = {}
        for k, a in sc.attributes.items():
            if a.type == A.STRING:
                d = a.default_value.s if a.default_value.s else b'ij->ji'
                kw[k] = d
            elif a.type in code:
                kw[k] = code[a.type]
        if sc.name == 'Constant':
            kw = {'value': 'T'}
        if 'to' in kw:
            kw['to'] = 't'
        if 'dtype' in kw:
            kw['dtype'] = 't'
        r[sc.name] = kw
    return r


SCHEMA = {k: v for k, v in schema_ops().items() if k not in OPS}


def h_op(E, op):
    """a registered operator keeps exactly its own attributes"""
    ox = onnx_of(E)
    kw = {}
    for k, v in (OPS[op] if op in OPS else SCHEMA[op]).items():
        if isinstance(v, (bytes, list)):
            kw[k] = v
        elif v == 'i':
            kw[k] = E.int(k, 0, 3)
        elif v == 't':
            kw[k] = E.choice(k, [1, 7, 10])
        elif v == 'f':
            kw[k] = E.real(k, 0, 10)
        elif v == 'T':
            kw[k] = init(E, 'v', E.int_array(k, [1], -9, 9, i64))
        elif set(v) == {'i'}:
            kw[k] = [E.int(f'{k}{i}', 1, 3) for i in range(len(v))]
        else:
            kw[k] = [E.real(f'{k}{i}', 1, 3) for i in range(len(v))]
    nodes = [out('Relu', 'pre', ['x'], ['r']), out(op, 'n0', ['r', 'w'] if op != 'Constant' else [], ['y'], **kw)]
    m = model(E, nodes, [('x', [2, 2])], [('y', None)], [weight(E, 'w', [2, 2])])
    want = [node_of(E, n) for n in m.graph.node]
    _, q = roundtrip(E, m)
    E.check(len(q.graph.node) == 2, 'two nodes')
    for a, b in zip(q.graph.node, want):
        same_node(E, node_of(E, a), b, op)


def h_setattr(E, kind):
    """attributes changed through set_attr are what is saved"""
    v, w = E.int('v', -9, 9), E.int('w', -9, 9)
    r = E.real('r', -9, 9)
    m = model(E, [out('Custom', 'n0', ['x'], ['y'], axis=v, perm=[v, w], mode='a', alpha=r)], [('x', [2])], [('y', [2])])

    def edit(M):
        nd = M.graph.nodemap['n0']
        nd.set_attr('axis', w)
        nd.set_attr('perm', [w, v, w])
        nd.set_attr('mode', 'b')
        nd.set_attr('alpha', r + 1)
        nd.set_attr('fresh', v)
    _, q = roundtrip(E, m, edit=edit)
    got = node_of(E, q.graph.node[0])['attrs']
    E.check(sorted(got) == ['alpha', 'axis', 'fresh', 'mode', 'perm'], 'attribute names')
    same_attr(E, got['axis'], (AP.INT, w), 'axis')
    same_attr(E, got['perm'], (AP.INTS, [w, v, w]), 'perm')
    same_attr(E, got['mode'], (AP.STRING, b'b'), 'mode')
    same_attr(E, got['alpha'], (AP.FLOAT, r + 1), 'alpha')
    same_attr(E, got['fresh'], (AP.INT, v), 'fresh')


# ------------------------------------------------------------------ whole models
def sample(E, dt, n):
    """MatMul/Add/Clip/... over x [n, 'C' or unknown]; w of type dt with symbolic values; unused initialiser, Constant, optional operand, shared weight,
    a weight and an input among the outputs, a declared intermediate, two inputs"""
    wv = E.real_array('w', [2, 3], -9, 9, dt) if np.dtype(dt).kind == 'f' else E.int_array('w', [2, 3], -9 if np.dtype(dt).kind == 'i' else 0, 9, dt)
    bv = E.real_array('b', [3], -9, 9, dt) if np.dtype(dt).kind == 'f' else E.int_array('b', [3], -9 if np.dtype(dt).kind == 'i' else 0, 9, dt)
    cv = E.int_array('c', [2], -9, 9, i64)
    nodes = [out('Custom', 'k', ['x'], ['cu', 'cv']), out('MatMul', 'mm', ['x', 'w'], ['t']), out('Constant', 'kc', [], ['kv'], value=cv), out('Add', 'ad', ['t', 'b'], ['u']),
             out('Clip', 'cl', ['u', '', 'hi'], ['v']), out('Mul', 'ml', ['v', 'b'], ['y']), out('Add', 'a2', ['x2', 'x2'], ['y2'])]
    inputs = [('x', [n, 2], dt), ('x2', ['N', None, 4], i32)]
    outs = [('y', ['N', 3], dt), ('y2', None, i32), ('b', [3], dt), ('kv', [2], i64)]
    hv = E.array(9, dt)
    inits = [init(E, 'w', wv), init(E, 'b', bv, raw=False), init(E, 'hi', hv), init(E, 'unused', E.array(np.ones(3, f32), f32))]
    m = model(E, nodes, inputs, outs, inits, infos=[('cu', [n, 'K'], f16)])
    ox = onnx_of(E)
    while len(m.opset_import):
        m.opset_import.pop()
    for d, v in (('', 13), ('my.ops', 2)):
        o = ox.OperatorSetIdProto()
        o.domain, o.version = d, v
        m.opset_import.append(o)
    m.ir_version = 7
    vals = {'w': wv, 'b': bv, 'hi': hv}
    return m, vals, cv


def h_model(E, dt, how, shape_only, no_shape, reload):
    dt = np.dtype(dt).type
    n = E.int('n', 1, 10 ** 6)
    m, vals, cv = sample(E, dt, n)
    want = [node_of(E, x) for x in m.graph.node]
    opts = {}
    if shape_only:
        opts['shape_only'] = True
    if no_shape:
        opts['no_shape'] = True
    M, q = roundtrip(E, m, how, opts=opts)
    if reload:
        M, q = roundtrip(E, q, 'proto')
    g = q.graph
    E.check(len(g.node) == len(want), 'number of nodes')
    for a, b in zip(g.node, want):
        same_node(E, node_of(E, a), b, 'node')
    E.check(q.ir_version == 7 and [(o.domain, o.version) for o in q.opset_import] == [('', 13), ('my.ops', 2)], 'IR version and operator sets')
    # initialisers
    names = sorted(t.name for t in g.initializer)
    E.check(names == ([] if shape_only else ['b', 'hi', 'w']), 'the initialisers in use are saved')
    for t in g.initializer:
        if t.name in vals:
            d, s, v = decode(E, t)
            E.observe(t.name, v)
            E.check(d == np.dtype(dt) and s == list(vals[t.name].shape), f'type and shape of {t.name}')
            E.check(E.same(v, E.elems(vals[t.name])), f'values of {t.name}')
    # inputs and outputs
    T = DT[np.dtype(dt)]
    wi = {'x': (T, [n, 2]), 'x2': (6, ['N', None, 4])}
    if shape_only:
        wi.update({'w': (T, [2, 3]), 'b': (T, [3]), 'hi': (T, [])})
    gi = {v.name: info_of(E, v) for v in g.input}
    E.check(sorted(gi) == sorted(wi) and len(g.input) == len(gi), 'names of the inputs')
    E.check([v.name for v in g.input][:2] == ['x', 'x2'], 'order of the inputs')
    for k in wi:
        if k in gi:
            E.check(gi[k][0] == wi[k][0] and len(gi[k][1]) == len(wi[k][1]) and E.all(*[E.eq(a, b) if a is not None and b is not None else a is b for a, b in zip(gi[k][1], wi[k][1])]),
                    f'declaration of input {k}')
    wo = [('y', (T, ['N', 3])), ('y2', (6, [])), ('b', (T, [3])), ('kv', (7, [2]))]
    go_ = [(v.name, info_of(E, v)) for v in g.output]
    E.check([a for a, _ in go_] == [a for a, _ in wo], 'names and order of the outputs')
    for (k, a), (_, b) in zip(go_, wo):
        E.check(a == b, f'declaration of output {k}')
    gv = {v.name: info_of(E, v) for v in g.value_info}
    if no_shape and not reload:
        E.check(not gv, 'no shape information')
    else:
        E.check('cu' in gv and gv['cu'][0] == 10 and len(gv['cu'][1]) == 2 and E.eq(gv['cu'][1][0], n) and gv['cu'][1][1] == 'K', 'declared intermediate')
        E.check(not set(gv) & {'t', 'u', 'v', 'cv', 'x', 'x2', 'y', 'y2', ''}, 'nothing is made up about undeclared tensors')


def h_inferred(E, dt, no_shape, shape_only, fn):
    """after shape inference the inferred shapes and types are written"""
    dt = np.dtype(dt).type
    n, k = E.int('n', 1, 512), E.int('k', 1, 512)
    nodes = [out('MatMul', 'mm', ['x', 'w'], ['t']), out('Transpose', 'tr', ['t'], ['u'], perm=[1, 0]), out('Shape', 'sh', ['u'], ['s']),
             out('ArgMax', 'am', ['u'], ['a'], axis=0, keepdims=0), out('Add', 'ad', ['u', 'b'], ['y'])]
    m = model(E, nodes, [('x', ['N', 4], dt)], [('y', None, dt), ('a', None, i64), ('s', None, i64)],
              [weight(E, 'w', [4, 3], dt), weight(E, 'b', [3, 1], dt)])
    opts = {a: b for a, b in (('shape_only', shape_only), ('no_shape', no_shape)) if b}
    x = {'x': E.opaque([n, 4], dt, 0)}
    if fn == 'Model':
        M, q = roundtrip(E, m, opts=opts, infer=x)
    else:
        with scratch(E) as d:
            p = os.path.join(d, 'o.onnx')
            r = E.call(E.m('').model_profile, m, x, save_profile=os.path.join(d, 'p.txt'), save_model=p, **opts)
            if not r.ok:
                E.fail(f'model_profile raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
            q = onnx_of(E).load_model(p)
    g = q.graph
    T = DT[np.dtype(dt)]
    gi = {v.name: info_of(E, v) for v in g.input}
    E.check('x' in gi and gi['x'][0] == T and E.same(gi['x'][1], [n, 4]), 'input declaration')
    E.check(sorted(gi) == (['b', 'w', 'x'] if shape_only else ['x']), 'inputs')
    if shape_only:
        E.check(gi.get('w') == (T, [4, 3]) and gi.get('b') == (T, [3, 1]), 'weights keep their shapes')
    E.check(len(g.initializer) == (0 if shape_only else 2), 'initialisers')
    want = {'y': (T, [3, n]), 'a': (7, [n]), 's': (7, [2])}
    E.check([v.name for v in g.output] == ['y', 'a', 's'], 'outputs')
    for v in g.output:
        t, s = info_of(E, v)
        E.check(t == want[v.name][0] and E.same(s, want[v.name][1]), f'output {v.name}')
    gv = {v.name: info_of(E, v) for v in g.value_info}
    if no_shape:
        E.check(not gv, 'no shape information')
    else:
        for nm, s in (('t', [n, 3]), ('u', [3, n])):
            E.check(nm in gv and gv[nm][0] == T and E.same(gv[nm][1], s), f'inferred {nm} is saved')


def h_edit(E, how):
    """tensor data and graph edits are what is saved"""
    v = E.int_array('v', [2, 3], -9, 9, i64)
    m = model(E, [out('Add', 'ad', ['x', 'w'], ['y'])], [('x', ['N', 3], i64)], [('y', None, i64)], [init(E, 'w', E.array(np.zeros((1, 3), i64), i64))])

    def edit(M):
        g = M.graph
        if how == 'update_tensor':
            g.tensormap['w'].update_tensor(v)
        elif how == 'update_proto':
            g.tensormap['w'].update_proto(v)
        elif how == 'numpy':
            g.tensormap['w'].numpy = v
        elif how == 'add_initial':
            g.add_initial('w2', v)
            g.nodemap['ad'].input[1] = 'w2'
    _, q = roundtrip(E, m, edit=edit)
    ini = {t.name: t for t in q.graph.initializer}
    nm = 'w2' if how == 'add_initial' else 'w'
    E.check(list(ini) == [nm], 'initialisers')
    if nm in ini:
        d, s, vals = decode(E, ini[nm])
        E.check(d == np.dtype(i64) and s == [2, 3] and E.same(vals, E.elems(v)), 'the new data are saved')
    E.check([x.name for x in q.graph.input] == ['x'], 'inputs')


def h_folding_fn(E):
    """model_constant_folding and model_reorder_nodes write what they promise"""
    w, v = E.int_array('w', [2], -9, 9, i64), E.int_array('v', [2], -9, 9, i64)
    nodes = [out('Add', 'n2', ['t', 'u'], ['y']), out('Mul', 'n1', ['x', 't'], ['u']), out('Sub', 'n0', ['w', 'v'], ['t'])]
    m = lambda: model(E, nodes, [('x', [2], i64)], [('y', [2], i64)], [init(E, 'w', w), init(E, 'v', v)])
    with scratch(E) as d:
        p = os.path.join(d, 'o.onnx')
        r = E.call(E.m('').model_reorder_nodes, m(), p)
        if not r.ok:
            E.fail(f'model_reorder_nodes raises {type(r.exc).__name__}')
        q = onnx_of(E).load_model(p).graph
        E.check([(x.op_type, x.name, list(x.input), list(x.output)) for x in q.node] == [('Sub', 'n0', ['w', 'v'], ['t']), ('Mul', 'n1', ['x', 't'], ['u']),
                                                                                       ('Add', 'n2', ['t', 'u'], ['y'])], 'reordered nodes')
        E.check(sorted(t.name for t in q.initializer) == ['v', 'w'] and [t.name for t in q.input] == ['x'] and [t.name for t in q.output] == ['y'], 'reordered model')
        r = E.call(E.m('').model_constant_folding, m(), p)
        if not r.ok:
            E.fail(f'model_constant_folding raises {type(r.exc).__name__}')
        q = onnx_of(E).load_model(p).graph
        E.check(sorted(x.name for x in q.node) == ['n1', 'n2'], 'folded nodes')
        E.check([t.name for t in q.initializer] == ['t'] and [t.name for t in q.input] == ['x'] and [t.name for t in q.output] == ['y'], 'folded model')
        for t in q.initializer:
            dd, s, vals = decode(E, t)
            E.check(dd == np.dtype(i64) and s == [2] and E.same(vals, [a - b for a, b in zip(E.elems(w), E.elems(v))]), 'folded value')


def h_struct(E, nn, ni, no, nops, dt):
    """nn operators of ni operands and no results, every one with weights, omitted operands, earlier results and declared results; nops operator sets; any IR version"""
    ox = onnx_of(E)
    dtt = np.dtype(dt).type
    nodes, inits, infos, vals, avail = [], [], [], {}, ['x0', 'x1']
    dim = [E.int(f'd{i}', 0, 10 ** 6) for i in range(2)]
    shapes = [[], [dim[0]], [dim[0], 'N'], [dim[1], None, 3], [1, dim[0], 'a b', 4], [2, dim[1], 2, 2, 'N']]
    nodes.append(out('Constant', 'kc', [], ['kv'], value=E.int_array('c', [2], -9, 9, i64)))
    infos.append(('kv', [2], i64))
    avail.append('kv')
    for k in range(nn):
        ins = []
        for j in range(ni):
            if (j + k) % 3 == 0:
                w = f'w{k}_{j}' if (j + k) % 2 == 0 else f'shared{j}'
                ins.append(w)
                if w not in vals:
                    shp = [[2], [], [1, 2], [2, 1, 1]][(j + k) % 4]
                    vals[w] = E.real_array(w, shp, -9, 9, dtt) if np.dtype(dtt).kind == 'f' else E.int_array(w, shp, 0, 9, dtt)
                    if len(shp) == 0:
                        vals[w] = E.array(7, dtt)
                    inits.append(init(E, w, vals[w], raw=bool(j % 2)))
            elif (j + k) % 5 == 4 and j < ni - 1:
                ins.append('')
            else:
                ins.append(avail[(j * 2 + k) % len(avail)])
        if k == 0:
            ins[0] = 'x0'
            ins[-1 if ni > 1 else 0] = 'x1' if ni > 1 else 'x0'
        outs = [f'o{k}_{j}' for j in range(no)]
        nodes.append(ox.helper.make_node(['Custom', 'Relu', 'Other'][k % 3], ins, outs, name=f'node/{k}', domain=['', 'my.ops', 'com.x'][(k + 1) % 3] if k % 3 != 1 else '',
                                         **{f'a{j}': E.int(f'a{k}_{j}', -2 ** 63, 2 ** 63 - 1) for j in range(k + 1)}))
        for j, o in enumerate(outs):
            if k < nn - 1:
                infos.append((o, shapes[1 + (j + k) % 5], [f32, f16, i64][(j + k) % 3]))
            avail.append(o)
    used = {i for n in nodes[1:] for i in n.input}
    gouts = [(f'o{nn - 1}_{j}', shapes[1 + j % 5], i64) for j in range(no)] + [(o, sh, t) for o, sh, t in infos if o not in used]
    infos = [i for i in infos if i[0] in used]
    ins = [(x, sh, t) for x, sh, t in (('x0', shapes[5], f32), ('x1', shapes[3], i8)) if x in used]
    m = model(E, nodes, ins, gouts, [i for i in inits if i.name in used], infos=infos)
    while len(m.opset_import):
        m.opset_import.pop()
    ops = [(d, E.int(f'v{j}', 1, 2 ** 31)) for j, d in enumerate(['', 'my.ops', 'com.x', 'ai.onnx.ml', 'z'][:nops])]
    for d, v in ops:
        o = ox.OperatorSetIdProto()
        o.domain, o.version = d, v
        m.opset_import.append(o)
    m.ir_version = E.int('ir', 1, 20)
    ir = m.ir_version
    want = [node_of(E, x) for x in m.graph.node]
    M, q = roundtrip(E, m)
    g = q.graph
    E.check(len(g.node) == len(want), 'number of nodes')
    for a, b in zip(g.node, want):
        same_node(E, node_of(E, a), b, 'node')
    E.check(E.eq(q.ir_version, ir), 'IR version')
    E.check(len(q.opset_import) == nops and all(a.domain == d for a, (d, v) in zip(q.opset_import, ops)) and E.all(*[E.eq(a.version, v) for a, (d, v) in zip(q.opset_import, ops)]), 'operator sets')
    E.check(sorted(t.name for t in g.initializer) == sorted(w for w in vals if w in used), 'the weights in use are saved, each once')
    for t in g.initializer:
        d, s, v = decode(E, t)
        E.check(d == np.dtype(dtt) and s == list(vals[t.name].shape) and E.same(v, E.elems(vals[t.name])), f'weight {t.name}')
    for what, got, exp in (('input', g.input, ins), ('output', g.output, gouts), ('intermediate', g.value_info, infos)):
        gi = {v.name: info_of(E, v) for v in got}
        E.check(sorted(gi) == sorted(x[0] for x in exp) and len(got) == len(gi), f'names of the {what}s')
        if what == 'input':
            E.check([v.name for v in got] == [x[0] for x in exp], 'order of the inputs')
        for k, sh, t in exp:
            if k in gi:
                E.check(gi[k][0] == DT[np.dtype(t)] and len(gi[k][1]) == len(sh) and E.all(*[E.eq(a, b) if a is not None and b is not None else a is b for a, b in zip(gi[k][1], sh)]),
                        f'declaration of {what} {k}')


def h_meta(E):
    """what belongs to the model besides its graph"""
    ox = onnx_of(E)
    m = model(E, [ox.helper.make_node('F', ['x'], ['t'], name='f', domain='my.ops'), out('Relu', 'r', ['t'], ['y'])], [('x', [2])], [('y', [2])])
    nf, k = E.int('functions', 0, 3), E.int('k', -9, 9)
    nf = int(nf)
    for i in range(nf):
        f = ox.FunctionProto(name=f'F{i}', domain='my.ops')
        f.input.append('a')
        f.output.append('b')
        f.node.append(ox.helper.make_node('Neg', ['a'], ['b'], name=f'in{i}', k=k))
        m.functions.append(f)
    np_ = int(E.int('entries', 0, 3))
    for i in range(np_):
        m.metadata_props.append(ox.StringStringEntryProto(key=f'k{i}', value=f'v{i}'))
    m.domain, m.doc_string, m.model_version = E.choice('domain', ['', 'org.x']), E.choice('doc', ['', 'text']), E.int('version', 0, 2 ** 31)
    want = m.domain, m.doc_string
    ver = m.model_version
    M, q = roundtrip(E, m, E.choice('how', ['proto', 'str']), opts=E.choice('opts', [{}, {'shape_only': True}, {'no_shape': True}]))
    E.check([(f.name, f.domain, list(f.input), list(f.output)) for f in q.functions] == [(f'F{i}', 'my.ops', ['a'], ['b']) for i in range(nf)], 'local functions')
    for i, f in enumerate(q.functions):
        E.check(len(f.node) == 1 and node_of(E, f.node[0])['name'] == f'in{i}' and E.eq(node_of(E, f.node[0])['attrs']['k'][1], k), 'body of a function')
    E.check([(p.key, p.value) for p in q.metadata_props] == [(f'k{i}', f'v{i}') for i in range(np_)], 'metadata')
    E.check((q.domain, q.doc_string) == want and E.eq(q.model_version, ver), 'domain, text and version of the model')


def h_order(E, n):
    """inputs and outputs keep their declared order, whatever the order of use; scalars keep being scalars"""
    perm = []
    for i in range(n):
        perm.append(E.choice(f'use{i}', [j for j in range(n) if j not in perm]))
    read = E.choice('also read', [None] + list(range(n)))        # an output another node reads
    folding = E.choice('constant_folding', [False, True])
    d = E.int('d', 1, 10 ** 6)
    nodes = [out('Relu', f'r{j}', [f'x{j}'], [f'y{j}']) for j in perm]
    last = [f'y{n - 1 - i}' for i in range(n)]
    if read is not None:
        nodes.append(out('Neg', 'ng', [f'y{read}'], ['z']))
        last.insert(1, 'z')
    shp = lambda i: [] if i == 0 else [d, 'N', i]
    m = model(E, nodes, [(f'x{i}', shp(i)) for i in range(n)], [(o, [] if o == 'y0' else [d, None]) for o in last])
    infer = {f'x{i}': E.opaque([] if i == 0 else [d, 2, i], f32, 0) for i in range(n)} if E.choice('infer', [False, True]) else None
    M, q = roundtrip(E, m, cfg={'constant_folding': folding}, infer=infer)
    E.check(list(M.graph.input) == [f'x{i}' for i in range(n)], 'order of the inputs of the graph')
    E.check([v.name for v in q.graph.input] == [f'x{i}' for i in range(n)], 'order of the inputs')
    E.check([v.name for v in q.graph.output] == last, 'order of the outputs')
    for i, v in enumerate(q.graph.input):
        t, s = info_of(E, v)
        E.check(v.type.tensor_type.HasField('shape') and (E.same(s, [d, 2, i] if i else []) if infer else len(s) == len(shp(i)) and E.all(*[E.eq(a, b) for a, b in zip(s, shp(i))])), f'declaration of input {i}')
    for v in q.graph.output:
        if v.name == 'y0' or infer:
            t, s = info_of(E, v)
            i = read if v.name == 'z' else int(v.name[1:])
            E.check(v.type.tensor_type.HasField('shape') and E.same(s, [d, 2, i] if i else []), f'declaration of output {v.name}')
    E.check(len(q.graph.node) == len(nodes), 'nodes')


def h_scalar(E):
    """a result of rank 0 is saved with its shape once that is known, and without one before"""
    n = E.int('n', 1, 512)
    m = model(E, [out('ReduceSum', 'rs', ['x'], ['s'], keepdims=0), out('Mul', 'ml', ['s', 's'], ['t']), out('Add', 'ad', ['x', 't'], ['y'])], [('x', [n, 2])], [('y', None), ('s', None)])
    infer = E.choice('infer', [True, False])
    M, q = roundtrip(E, m, infer={'x': E.opaque([n, 2], f32, 0)} if infer else None)
    for v in list(q.graph.output) + list(q.graph.value_info):
        t, s = info_of(E, v)
        E.check(v.type.tensor_type.HasField('shape') == infer and E.same(s, ([n, 2] if v.name == 'y' else []) if infer else []), f'shape of {v.name}')
    E.check([v.name for v in q.graph.value_info] == (['t'] if infer else []), 'intermediates')


def h_member(E, key, op):
    """attributes may have any name"""
    ox = onnx_of(E)
    kind = E.choice('kind', ['int', 'string', 'ints'])
    v = {'int': lambda: E.int('v', -9, 9), 'string': lambda: 'txt', 'ints': lambda: E.ints('v', 2, -9, 9)}[kind]()
    n = ox.helper.make_node(op, ['x'], ['y'], name='n0', alpha=1)
    n.attribute.append(ox.helper.make_attribute(key, v))
    n2 = ox.helper.make_node('Relu', ['y'], ['z'], name='n1')
    want = [node_of(E, n), node_of(E, n2)]
    vi = ox.helper.make_tensor_value_info
    m = ox.helper.make_model(ox.helper.make_graph([n, n2], 'g', [vi('x', 1, [2])], [vi('z', 1, [2])]))
    d = E.int('d', 1, 99)
    M, q = roundtrip(E, m, infer={'x': E.opaque([d], f32, 0)} if op == 'Neg' else None)
    E.check(sorted(M.graph.nodemap) == ['n0', 'n1'], 'nodes of the graph')
    E.check(len(q.graph.node) == 2, 'two nodes')
    for a, b in zip(q.graph.node, want):
        same_node(E, node_of(E, a), b, f'{key} of {op}')


def obligations(tier):
    obs = []
    for kind in ('int', 'float', 'ints', 'floats', 'string', 'strings', 'tensor-f32', 'tensor-i64', 'tensor-f16', 'tensor-u8', 'graph', 'empty-ints', 'empty-floats',
                 'empty-strings'):
        for op, dom in (('Custom', ''), ('Custom', 'com.vendor'), ('Relu', ''), ('Dropout', 'ai.onnx.x')):
            obs.append(Ob(f'attr-{kind}-{op}-{dom or "default"}', h_attr, dict(kind=kind, op=op, domain=dom)))
    for op in OPS:
        obs.append(Ob(f'op-{op}', h_op, dict(op=op)))
    for op in sorted(SCHEMA):
        obs.append(Ob(f'schema-{op}', h_op, dict(op=op)))
    obs.append(Ob('set_attr', h_setattr, dict(kind='')))
    for dt in ('float32', 'float16', 'float64', 'int64', 'int32', 'uint8'):
        for how in ('proto', 'str', 'path'):
            obs.append(Ob(f'model-{dt}-{how}', h_model, dict(dt=dt, how=how, shape_only=False, no_shape=False, reload=how == 'path')))
        obs.append(Ob(f'model-{dt}-shape_only', h_model, dict(dt=dt, how='proto', shape_only=True, no_shape=False, reload=False)))
        obs.append(Ob(f'model-{dt}-no_shape', h_model, dict(dt=dt, how='proto', shape_only=False, no_shape=True, reload=False)))
    for dt in ('float32', 'float16', 'float64'):
        for fn in ('Model', 'profile'):
            for so in (False, True):
                for ns in (False, True):
                    obs.append(Ob(f'inferred-{dt}-{fn}-{so}-{ns}', h_inferred, dict(dt=dt, fn=fn, shape_only=so, no_shape=ns)))
    obs += [Ob(f'edit-{h}', h_edit, dict(how=h)) for h in ('update_tensor', 'update_proto', 'numpy', 'add_initial')]
    obs.append(Ob('functions', h_folding_fn, {}))
    for nn, ni, no, nops, dt in ((1, 1, 1, 1, 'float32'), (1, 9, 1, 3, 'uint8'), (1, 10, 5, 5, 'float16'), (2, 3, 3, 4, 'int64'), (3, 5, 2, 3, 'float32'), (4, 2, 4, 2, 'int32'),
                                 (5, 9, 3, 3, 'float64'), (6, 4, 1, 4, 'float32')):
        obs.append(Ob(f'struct-{nn}-{ni}-{no}-{nops}', h_struct, dict(nn=nn, ni=ni, no=no, nops=nops, dt=dt)))
    obs += [Ob('meta', h_meta, {}), Ob('scalar', h_scalar, {})] + [Ob(f'order-{n}', h_order, dict(n=n)) for n in (1, 2, 3)]
    for key in ('name', 'op_type', 'input', 'output', 'proto', 'attr', 'nextnodes', 'prevnodes', 'static_inputs', 'dynamic_inputs', 'shape_calc', 'value_infer', 'shape_infer', 'profile', 'make_nodeproto', 'set_attr', 'add_default_value',
                'members', 'inputs', 'outputs', 'domain', 'doc_string', 'overload', 'constant', 'op_mac', 'ratio'):
        for op in ('Custom', 'Neg'):
            obs.append(Ob(f'member-{key}-{op}', h_member, dict(key=key, op=op)))
    return obs


BOUNDS = {'all': 'attributes of all eight kinds (64-bit integers, lists of 0-3, floats -100..100, texts, tensors of four types, subgraphs), with and without operator domain; '
                 '37 registered operators with their attributes; one seven-node model with an unregistered two-output operator, optional operand, shared, unused and output weights, a Constant, two inputs '
                 'with known, named and unknown dimensions up to 10^6, in six element types; structures of 1-6 operators with up to 10 operands and 5 results, all declared, 1-5 operator sets, IR 1-20; 0-3 local functions and metadata entries; 1-3 inputs used in any order; 26 attribute names that are members of the node class of the tool or parameters of make_node; options shape_only and no_shape; saved as loaded, after inference (sizes to 512) and after edits'}
OUTSIDE = 'unused graph inputs; sparse tensors and training information; the name of the graph'
ASSUMPTIONS = ['onnx protobufs and their files are modelled by symex/fonnx.py; every path is replayed with real files']
