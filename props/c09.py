"""C09 - shape inference of whole graphs, including shapes computed inside the graph."""
import re
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *

f32, i64 = np.float32, np.int64
T = {}


def template(f):
    T[f.__name__[2:]] = f
    return f


def K(E, *v, dt=i64):
    return E.array(list(v), dt)


def S(E, v, dt=i64):
    return E.array(v, dt)


# Every template returns (nodes, inits, input shapes, expected shape of every checked tensor, outputs)
@template
def t_cnn(E, d):
    n, h, w = d('n', 1, 64), d('h', 16, 256), d('w', 16, 256)
    c1 = lambda v: (v + 6 - 7) // 2 + 1
    p1 = lambda v: (v + 2 - 3) // 2 + 1
    nodes = [out('Conv', 'conv', ['x', 'cw', 'cb'], ['c'], kernel_shape=[7, 7], strides=[2, 2], pads=[3, 3, 3, 3], dilations=[1, 1], group=1),
             out('BatchNormalization', 'bn', ['c', 's', 'b', 'm', 'v'], ['bn0'], epsilon=1e-5),
             out('Relu', 'relu', ['bn0'], ['r']),
             out('MaxPool', 'pool', ['r'], ['p'], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1]),
             out('Conv', 'conv1', ['p', 'cw1'], ['c1'], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1], dilations=[1, 1], group=1),
             out('Add', 'add', ['c1', 'p'], ['res']),
             out('GlobalAveragePool', 'gap', ['res'], ['g']),
             out('Flatten', 'fl', ['g'], ['f'], axis=1),
             out('Gemm', 'fc', ['f', 'gw', 'gb'], ['y'], transB=1),
             out('Softmax', 'sm', ['y'], ['z'], axis=1)]
    inits = [weight(E, 'cw', [4, 3, 7, 7]), weight(E, 'cb', [4])] + [weight(E, k, [4]) for k in 'sbmv'] + [
        weight(E, 'cw1', [4, 4, 3, 3]), weight(E, 'gw', [10, 4]), weight(E, 'gb', [10])]
    a, b = c1(h), c1(w)
    want = {'c': [n, 4, a, b], 'bn0': [n, 4, a, b], 'r': [n, 4, a, b], 'p': [n, 4, p1(a), p1(b)], 'c1': [n, 4, p1(a), p1(b)],
            'res': [n, 4, p1(a), p1(b)], 'g': [n, 4, 1, 1], 'f': [n, 4], 'y': [n, 10], 'z': [n, 10]}
    return nodes, inits, {'x': [n, 3, h, w]}, want, ['z']


@template
def t_view(E, d):
    """x.view(x.size(0), -1, x.size(2))"""
    n, c, h, w = d('n', 1, 32), d('c', 1, 32), d('h', 1, 32), d('w', 1, 32)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g0', ['s', 'i0'], ['d0'], axis=0),
             out('Shape', 'sh1', ['x'], ['s1']), out('Gather', 'g1', ['s1', 'i2'], ['d2'], axis=0),
             out('Unsqueeze', 'u0', ['d0', 'ax'], ['e0']), out('Unsqueeze', 'u1', ['d2', 'ax'], ['e2']),
             out('Concat', 'cc', ['e0', 'm1', 'e2'], ['tgt'], axis=0), out('Reshape', 'rs', ['x', 'tgt'], ['y']),
             out('Relu', 'r', ['y'], ['z'])]
    inits = [('i0', S(E, 0)), ('i2', S(E, 2)), ('ax', K(E, 0)), ('m1', K(E, -1))]
    return nodes, inits, {'x': [n, c, h, w]}, {'y': [n, c * w, h], 'z': [n, c * w, h]}, ['z']


@template
def t_view_attr(E, d):
    """the same with Constant nodes and the attribute form of Unsqueeze, as older exporters write it"""
    n, c, h, w = d('n', 1, 32), d('c', 1, 32), d('h', 1, 32), d('w', 1, 32)
    nodes = [out('Constant', 'k0', [], ['i0'], value=S(E, 0)), out('Constant', 'k1', [], ['i1'], value=S(E, 1)),
             out('Shape', 'sh', ['x'], ['s']), out('Gather', 'g0', ['s', 'i0'], ['d0'], axis=0), out('Gather', 'g1', ['s', 'i1'], ['d1'], axis=0),
             out('Mul', 'mul', ['d0', 'd1'], ['nc']),
             out('Unsqueeze', 'u0', ['nc'], ['e0'], axes=[0]), out('Constant', 'k2', [], ['m1'], value=K(E, -1)),
             out('Concat', 'cc', ['e0', 'm1'], ['tgt'], axis=0), out('Reshape', 'rs', ['x', 'tgt'], ['y']),
             out('Transpose', 'tr', ['y'], ['z'], perm=[1, 0])]
    return nodes, [], {'x': [n, c, h, w]}, {'y': [n * c, h * w], 'z': [h * w, n * c]}, ['z']


@template
def t_upsample(E, d):
    """F.interpolate(x, size=(2*h, 3*w))"""
    n, c, h, w = d('n', 1, 32), d('c', 1, 32), d('h', 1, 512), d('w', 1, 512)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Slice', 'sl', ['s', 'b0', 'b2', 'ax'], ['nc']), out('Slice', 'sl2', ['s', 'b2', 'b4', 'ax'], ['hw']),
             out('Cast', 'ca', ['hw'], ['hf'], to=1), out('Mul', 'mul', ['hf', 'sc'], ['hs']), out('Floor', 'fl', ['hs'], ['hfl']),
             out('Cast', 'cb', ['hfl'], ['hi'], to=7), out('Concat', 'cc', ['nc', 'hi'], ['sizes'], axis=0),
             out('Resize', 'rs', ['x', '', '', 'sizes'], ['y'], mode='nearest'), out('Sigmoid', 'sg', ['y'], ['z'])]
    inits = [('b0', K(E, 0)), ('b2', K(E, 2)), ('b4', K(E, 4)), ('ax', K(E, 0)), ('sc', K(E, 2.0, 3.0, dt=f32))]
    return nodes, inits, {'x': [n, c, h, w]}, {'y': [n, c, 2 * h, 3 * w], 'z': [n, c, 2 * h, 3 * w]}, ['z']


@template
def t_fpn(E, d):
    """the top feature map is resized to the size of the lower one (Shape of another tensor), then added"""
    n, h, w = d('n', 1, 8), d('h', 4, 256), d('w', 4, 256)
    nodes = [out('Conv', 'cv', ['x', 'cw'], ['c'], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1], dilations=[1, 1], group=1),
             out('Shape', 'sx', ['x'], ['s']), out('Slice', 'sl', ['s', 'b2', 'b4'], ['hw']),
             out('Shape', 'sc', ['c'], ['s2']), out('Slice', 'sl2', ['s2', 'b0', 'b2'], ['nc']),
             out('Concat', 'cc', ['nc', 'hw'], ['sizes'], axis=0), out('Resize', 'rs', ['c', '', '', 'sizes'], ['up'], mode='linear'),
             out('Add', 'ad', ['up', 'x'], ['y'])]
    inits = [weight(E, 'cw', [3, 3, 3, 3]), ('b0', K(E, 0)), ('b2', K(E, 2)), ('b4', K(E, 4))]
    k = lambda v: (v - 1) // 2 + 1
    return nodes, inits, {'x': [n, 3, h, w]}, {'c': [n, 3, k(h), k(w)], 'up': [n, 3, h, w], 'y': [n, 3, h, w]}, ['y']


@template
def t_mha(E, d):
    """multi-head attention with reshapes to (0, 0, heads, -1)"""
    b, s = d('b', 1, 32), d('s', 1, 512)
    H, D = 4, 6
    nodes = []
    for p in 'qkv':
        nodes += [out('MatMul', f'mm{p}', ['x', f'w{p}'], [f'{p}0']), out('Add', f'ad{p}', [f'b{p}', f'{p}0'], [f'{p}1']),
                  out('Reshape', f'rs{p}', [f'{p}1', 'hs'], [f'{p}2']),
                  out('Transpose', f'tr{p}', [f'{p}2'], [f'{p}3'], perm=[0, 2, 3, 1] if p == 'k' else [0, 2, 1, 3])]
    nodes += [out('MatMul', 'qk', ['q3', 'k3'], ['sc']), out('Div', 'dv', ['sc', 'k'], ['sc1']), out('Add', 'mask', ['sc1', 'msk'], ['sc2']),
              out('Softmax', 'sm', ['sc2'], ['pr'], axis=-1), out('MatMul', 'pv', ['pr', 'v3'], ['ctx']),
              out('Transpose', 'tb', ['ctx'], ['ctx1'], perm=[0, 2, 1, 3]), out('Reshape', 'rb', ['ctx1', 'os'], ['ctx2']),
              out('MatMul', 'mo', ['ctx2', 'wo'], ['y']), out('Add', 'res', ['y', 'x'], ['y1']),
              out('LayerNormalization', 'ln', ['y1', 'g', 'be'], ['z'], axis=-1, epsilon=1e-5)]
    inits = [weight(E, f'w{p}', [H * D, H * D]) for p in 'qkvo'] + [weight(E, f'b{p}', [H * D]) for p in 'qkv'] + [
        weight(E, 'g', [H * D]), weight(E, 'be', [H * D]), ('hs', K(E, 0, 0, H, -1)), ('os', K(E, 0, 0, -1)), ('k', S(E, 8.0, f32))]
    want = {'q1': [b, s, 24], 'q2': [b, s, H, D], 'q3': [b, H, s, D], 'k3': [b, H, D, s], 'sc': [b, H, s, s], 'sc1': [b, H, s, s],
            'sc2': [b, H, s, s], 'pr': [b, H, s, s], 'ctx': [b, H, s, D], 'ctx1': [b, s, H, D], 'ctx2': [b, s, 24], 'z': [b, s, 24]}
    return nodes, inits, {'x': [b, s, 24], 'msk': [b, 1, 1, s]}, want, ['z']


@template
def t_expand(E, d):
    """the exporter's expand(): where(shape == -1, 1, shape)"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i0'], ['d0'], axis=0), out('Unsqueeze', 'un', ['d0', 'ax'], ['e0']),
             out('Concat', 'cc', ['e0', 'm1', 'five'], ['req'], axis=0),
             out('ConstantOfShape', 'cs', ['three'], ['ones'], value=K(E, 1)), out('Mul', 'ml', ['ones', 'neg'], ['negs']),
             out('Equal', 'eq', ['req', 'negs'], ['isneg']), out('Where', 'wh', ['isneg', 'ones', 'req'], ['tgt']),
             out('Expand', 'ex', ['y0', 'tgt'], ['y']), out('Neg', 'ng', ['y'], ['z'])]
    inits = [('i0', S(E, 0)), ('ax', K(E, 0)), ('m1', K(E, -1)), ('five', K(E, 5)), ('three', K(E, 3)), ('neg', S(E, -1))]
    return nodes, inits, {'x': [n, 7], 'y0': [1, h, 1]}, {'y': [n, h, 5], 'z': [n, h, 5]}, ['z']


@template
def t_position(E, d):
    """positional embedding: Range(0, sequence length) looked up in a table"""
    b, s = d('b', 1, 32), d('s', 1, 12)
    nodes = [out('Shape', 'sh', ['ids'], ['sp']), out('Gather', 'ga', ['sp', 'i1'], ['len'], axis=0),
             out('Range', 'rg', ['zero', 'len', 'one'], ['pos']), out('Unsqueeze', 'un', ['pos', 'ax'], ['pos1']),
             out('Gather', 'pe', ['ptab', 'pos1'], ['pemb'], axis=0), out('Gather', 'te', ['ttab', 'ids'], ['temb'], axis=0),
             out('Add', 'ad', ['temb', 'pemb'], ['y'])]
    inits = [('i1', S(E, 1)), ('zero', S(E, 0)), ('one', S(E, 1)), ('ax', K(E, 0)), weight(E, 'ptab', [20, 6]), weight(E, 'ttab', [50, 6])]
    return nodes, inits, {'ids': ([b, s], i64)}, {'pos': [s], 'pos1': [1, s], 'pemb': [1, s, 6], 'temb': [b, s, 6], 'y': [b, s, 6]}, ['y']


@template
def t_split(E, d):
    """channel split in two halves computed from the shape, one branch sliced, both concatenated"""
    n, c, h = d('n', 1, 32), d('c', 1, 64), d('h', 2, 64)
    nodes = [out('Split', 'sp', ['x'], ['a', 'b'], axis=1), out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i2'], ['h'], axis=0),
             out('Div', 'dv', ['h', 'two'], ['half']), out('Unsqueeze', 'un', ['half', 'ax'], ['e']),
             out('Slice', 'sl', ['a', 'z0', 'e', 'ax2'], ['top']), out('Slice', 'sl2', ['b', 'e', 'big', 'ax2'], ['bot']),
             out('Concat', 'cc', ['top', 'bot'], ['y'], axis=2)]
    inits = [('i2', S(E, 2)), ('two', S(E, 2)), ('ax', K(E, 0)), ('z0', K(E, 0)), ('ax2', K(E, 2)), ('big', K(E, 2 ** 31))]
    return nodes, inits, {'x': [n, 2 * c, h]}, {'a': [n, c, h], 'top': [n, c, h // 2], 'bot': [n, c, h - h // 2], 'y': [n, c, h]}, ['y']


@template
def t_tilepad(E, d):
    """repeat() by a computed count, then padding to a computed length"""
    n, h = d('n', 1, 32), d('h', 1, 32)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i0v'], ['n'], axis=0), out('Concat', 'cc', ['n', 'one', 'one'], ['rep'], axis=0),
             out('Tile', 'ti', ['y0', 'rep'], ['t']), out('Gather', 'gb', ['s', 'i1v'], ['h'], axis=0),
             out('Concat', 'cp', ['z', 'z', 'z', 'z', 'z', 'h'], ['pads'], axis=0), out('Pad', 'pd', ['t', 'pads'], ['y'])]
    inits = [('i0v', K(E, 0)), ('i1v', K(E, 1)), ('one', K(E, 1)), ('z', K(E, 0))]
    return nodes, inits, {'x': [n, h], 'y0': [1, 3, 4]}, {'t': [n, 3, 4], 'y': [n, 3, 4 + h]}, ['y']


@template
def t_topk(E, d):
    """k = min(H*W, 10) computed in the graph"""
    n, h = d('n', 1, 8), d('h', 1, 32)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i1'], ['c'], axis=0), out('Concat', 'cc', ['c', 'ten'], ['cands'], axis=0),
             out('ReduceMin', 'rm', ['cands'], ['k'], axes=[0], keepdims=1), out('TopK', 'tk', ['x', 'k'], ['v', 'i'], axis=1),
             out('Transpose', 'tr', ['v'], ['y'], perm=[1, 0])]
    inits = [('i1', K(E, 1)), ('ten', K(E, 10))]
    k = E.ite(h < 10, h, 10)
    return nodes, inits, {'x': [n, h]}, {'v': [n, k], 'i': [n, k], 'y': [k, n]}, ['y', 'i']


@template
def t_static_branch(E, d):
    """a subgraph of constants only (folded or not) feeding a dynamic one"""
    n, h = d('n', 1, 64), d('h', 1, 64)
    nodes = [out('Constant', 'k', [], ['kk'], value=K(E, 2, 3)), out('Add', 'ka', ['kk', 'one'], ['k1']), out('Mul', 'kb', ['k1', 'k1'], ['k2']),
             out('Gather', 'kc', ['k2', 'i1'], ['k3'], axis=0), out('Concat', 'kd', ['mone', 'k3'], ['tgt'], axis=0),
             out('Reshape', 'rs', ['x', 'tgt'], ['y']), out('Transpose', 'wt', ['w'], ['wT'], perm=[1, 0]), out('MatMul', 'mm', ['y', 'wT'], ['z'])]
    inits = [('one', K(E, 1)), ('i1', K(E, 1)), ('mone', K(E, -1)), weight(E, 'w', [5, 16])]
    return nodes, inits, {'x': [n, h, 16]}, {'y': [n * h, 16], 'z': [n * h, 5]}, ['z']


@template
def t_squeeze(E, d):
    """ReduceMean / Squeeze / Unsqueeze with tensor axes, ArgMax and a comparison"""
    n, c, h = d('n', 1, 20), d('c', 1, 20), d('h', 1, 20)
    nodes = [out('ReduceMean', 'rm', ['x'], ['m'], axes=[2], keepdims=1), out('Squeeze', 'sq', ['m', 'ax2'], ['q']),
             out('Unsqueeze', 'un', ['q', 'ax0'], ['u']), out('ReduceSum', 'rs', ['x', 'ax1'], ['r'], keepdims=0),
             out('ArgMax', 'am', ['x'], ['am'], axis=1, keepdims=0), out('Less', 'ls', ['x', 'm'], ['l']), out('Cast', 'ct', ['l'], ['y'], to=1)]
    inits = [('ax2', K(E, 2)), ('ax0', K(E, 0)), ('ax1', K(E, 1))]
    return nodes, inits, {'x': [n, c, h]}, {'m': [n, c, 1], 'q': [n, c], 'u': [1, n, c], 'r': [n, h], 'am': [n, h], 'l': [n, c, h], 'y': [n, c, h]}, [
        'y', 'u', 'r', 'am']


@template
def t_gru(E, d):
    """recurrent layer over a transposed sequence"""
    b, s = d('b', 1, 64), d('s', 1, 64)
    nodes = [out('Transpose', 't0', ['x'], ['xt'], perm=[1, 0, 2]), out('LSTM', 'lstm', ['xt', 'W', 'R'], ['Y', 'Yh', 'Yc'], hidden_size=5),
             out('Squeeze', 'sq', ['Y', 'ax1'], ['y']), out('Transpose', 't1', ['y'], ['z'], perm=[1, 0, 2])]
    inits = [weight(E, 'W', [1, 20, 3]), weight(E, 'R', [1, 20, 5]), ('ax1', K(E, 1))]
    return nodes, inits, {'x': [b, s, 3]}, {'xt': [s, b, 3], 'Y': [s, 1, b, 5], 'Yh': [1, b, 5], 'y': [s, b, 5], 'z': [b, s, 5]}, ['z', 'Yh', 'Yc']


# ---- every operand that _SHAPE_TENSORS or the operator makes a shape can be computed inside the graph ----
# X: name -> (nodes, inits, inputs, wanted shapes, outputs); `v(k)` is a computed one-element tensor holding the size of input `s` along axis k
def comp(E, d):
    """sizes of the carrier input s: [a, b, c] as computed 1-D tensors va, vb, vc (and scalars sa, sb, sc)"""
    nodes = [out('Shape', 'csh', ['s'], ['cs'])]
    inits = []
    for i, k in enumerate('abc'):
        nodes += [out('Gather', f'cg{k}', ['cs', f'ci{k}'], [f's{k}'], axis=0), out('Unsqueeze', f'cu{k}', [f's{k}', 'c0'], [f'v{k}'])]
        inits.append((f'ci{k}', S(E, i)))
    inits += [('c0', K(E, 0)), ('c1', K(E, 1)), ('cm1', K(E, -1)), ('s0', S(E, 0)), ('s1', S(E, 1))]
    return nodes, inits


X = {}


def operand(*a):
    def dec(f):
        X[f.__name__[2:]] = f
        return f
    return dec


def used(nodes, inits, outs):
    """drop what nothing reads"""
    need = set(outs)
    for n in nodes[::-1]:
        if any(o in need for o in n[3]):
            need.update(n[2])
    return [n for n in nodes if any(o in need for o in n[3])], [t for t in inits if t[0] in need]


@operand()
def o_slice_start(E, d):
    a, n = d('a', 0, 6), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'va', 'big', 'c1'], ['y'])], [('big', K(E, 2 ** 31))], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, E.max(n - a, 0)]}


@operand()
def o_slice_end(E, d):
    a, n = d('a', 0, 6), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'c0', 'va', 'c1'], ['y'])], [], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, E.min(a, n)]}


@operand()
def o_slice3_end(E, d):
    a, n = d('a', 0, 6), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'c0', 'va'], ['y'])], [], {'s': [a, 1, 1], 'x': [n, 3]}, {'y': [E.min(a, n), 3]}


@operand()
def o_slice_axes(E, d):
    """the axis is the size of s (0 or 1)"""
    a, n = d('a', 0, 1), d('n', 3, 64)
    return [out('Slice', 'op', ['x', 'c0', 'c1', 'va'], ['y'])], [], {'s': [a, 1, 1], 'x': [n, n + 1]}, {'y': [E.ite(a == 0, 1, n), E.ite(a == 0, n + 1, 1)]}


@operand()
def o_slice_steps(E, d):
    a, n = d('a', 1, 4), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'c0', 'big', 'c1', 'va'], ['y'])], [('big', K(E, 2 ** 31))], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, (n + a - 1) // a]}


@operand()
def o_slice_all(E, d):
    a, b, n = d('a', 0, 4), d('b', 1, 3), d('n', 8, 64)
    return [out('Slice', 'op', ['x', 'va', 'vc', 'vb', 'vb'], ['y'])], [], {'s': [a, 1, 6], 'x': [2, n]}, {'y': [2, 6 - a]}


@operand()
def o_pad3(E, d):
    a, b, n = d('a', 0, 6), d('b', 0, 6), d('n', 1, 64)
    return [out('Concat', 'cc', ['c0', 'va', 'c0', 'vb'], ['pads'], axis=0), out('Pad', 'op', ['x', 'pads', 'pv'], ['y'])], [('pv', S(E, 0, f32))], {
        's': [a, b, 1], 'x': [2, n]}, {'y': [2, n + a + b]}


@operand()
def o_constantofshape(E, d):
    a, b = d('a', 1, 6), d('b', 1, 6)
    return [out('Concat', 'cc', ['va', 'c1', 'vb'], ['t'], axis=0), out('ConstantOfShape', 'op', ['t'], ['y0']), out('Relu', 'r', ['y0'], ['y'])], [], {
        's': [a, b, 1]}, {'y': [a, 1, b]}


@operand()
def o_onehot(E, d):
    a, n = d('a', 1, 6), d('n', 1, 6)
    return [out('OneHot', 'op', ['x', 'va', 'vals'], ['y'], axis=-1)], [('vals', K(E, 0.0, 1.0, dt=f32))], {'s': [a, 1, 1], 'x': ([n, 2], i64)}, {'y': [n, 2, a]}


@operand()
def o_split(E, d):
    a, b = d('a', 1, 30), d('b', 1, 30)
    return [out('Concat', 'cc', ['va', 'vb'], ['sp'], axis=0), out('Split', 'op', ['x', 'sp'], ['y', 'z'], axis=1)], [], {'s': [a, b, 1], 'x': [2, a + b]}, {
        'y': [2, a], 'z': [2, b]}


@operand()
def o_unsqueeze(E, d):
    a, n = d('a', 0, 2), d('n', 2, 30)
    return [out('Unsqueeze', 'op', ['x', 'va'], ['y'])], [], {'s': [a, 1, 1], 'x': [n, 40]}, {
        'y': [E.ite(a == 0, 1, n), E.ite(a == 1, 1, E.ite(a == 0, n, 40)), E.ite(a == 2, 1, 40)]}


@operand()
def o_squeeze(E, d):
    a, n = d('a', 0, 1), d('n', 2, 30)
    return [out('Squeeze', 'op', ['x', 'va'], ['y'])], [], {'s': [a, 1, 1], 'x': [1, 1, n]}, {'y': [1, n]}


@operand()
def o_reducesum(E, d):
    a, n = d('a', 0, 1), d('n', 2, 30)
    return [out('ReduceSum', 'op', ['x', 'va'], ['y'], keepdims=0)], [], {'s': [a, 1, 1], 'x': [n, 40]}, {'y': [E.ite(a == 0, 40, n)]}


@operand()
def o_reducemean(E, d):
    a, n = d('a', 0, 1), d('n', 2, 30)
    return [out('ReduceMean', 'op', ['x', 'va'], ['y'], keepdims=1)], [], {'s': [a, 1, 1], 'x': [n, 40]}, {'y': [E.ite(a == 0, 1, n), E.ite(a == 1, 1, 40)]}


@operand()
def o_resize_scales(E, d):
    """scales computed from sizes: (1, 1, a, b)"""
    a, b, h = d('a', 1, 6), d('b', 1, 6), d('h', 1, 64)
    return [out('Concat', 'cc', ['c1', 'c1', 'va', 'vb'], ['t'], axis=0), out('Cast', 'ca', ['t'], ['tf'], to=1), out('Resize', 'op', ['x', '', 'tf'], ['y'], mode='nearest')], [], {
        's': [a, b, 1], 'x': [1, 3, h, 5]}, {'y': [1, 3, h * a, 5 * b]}


@operand()
def o_upsample(E, d):
    a, b, h = d('a', 1, 6), d('b', 1, 6), d('h', 1, 64)
    return [out('Concat', 'cc', ['c1', 'c1', 'va', 'vb'], ['t'], axis=0), out('Cast', 'ca', ['t'], ['tf'], to=1), out('Upsample', 'op', ['x', 'tf'], ['y'], mode='nearest')], [], {
        's': [a, b, 1], 'x': [1, 3, h, 5]}, {'y': [1, 3, h * a, 5 * b]}


@operand()
def o_range_start(E, d):
    a, b = d('a', 1, 6), d('b', 0, 6)
    return [out('Add', 'ad', ['sa', 'sb'], ['e']), out('Range', 'op', ['sa', 'e', 's1'], ['y0']), out('Neg', 'ng', ['y0'], ['y'])], [], {'s': [a, b, 1]}, {'y': [b]}


@operand()
def o_range_delta(E, d):
    a = d('a', 1, 6)
    return [out('Range', 'op', ['s0', 'lim', 'sa'], ['y0']), out('Neg', 'ng', ['y0'], ['y'])], [('lim', S(E, 12))], {'s': [a, 1, 1]}, {'y': [(12 + a - 1) // a]}


@operand()
def o_tile(E, d):
    a, n = d('a', 1, 6), d('n', 1, 30)
    return [out('Concat', 'cc', ['c1', 'va'], ['rep'], axis=0), out('Tile', 'op', ['x', 'rep'], ['y'])], [], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, n * a]}


@operand()
def o_expand(E, d):
    a, n = d('a', 2, 6), d('n', 1, 30)
    return [out('Concat', 'cc', ['va', 'c1', 'vb'], ['t'], axis=0), out('Expand', 'op', ['x', 't'], ['y'])], [], {'s': [a, 3, 1], 'x': [n, 1]}, {'y': [a, n, 3]}


@operand()
def o_topk(E, d):
    a, n = d('a', 1, 6), d('n', 6, 30)
    return [out('TopK', 'op', ['x', 'va'], ['y', 'z'], axis=1)], [], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, a], 'z': [2, a]}


@operand()
def o_reshape_prod(E, d):
    """target built with a product, a quotient and a difference of sizes, by Size and a reduction"""
    a, n = d('a', 1, 6), d('n', 1, 30)
    return [out('Mul', 'ml', ['va', 'vb'], ['ab']), out('Sub', 'sb', ['ab', 'va'], ['am']), out('Concat', 'cc', ['am', 'cm1'], ['t'], axis=0),
            out('Reshape', 'op', ['x', 't'], ['y'])], [], {'s': [a, 3, 1], 'x': [n, a, 4]}, {'y': [2 * a, 2 * n]}


@operand()
def o_two_shapes(E, d):
    """the target mixes sizes of two activations, one of them computed by a layer"""
    a, n, m = d('a', 1, 30), d('n', 1, 30), d('m', 1, 30)
    return [out('Transpose', 'tp', ['x'], ['xt'], perm=[1, 0]), out('Shape', 'sh2', ['xt'], ['t2']), out('Gather', 'g2', ['t2', 'c0'], ['m2'], axis=0),
            out('Concat', 'cc', ['va', 'm2', 'cm1'], ['t'], axis=0), out('Reshape', 'op', ['w', 't'], ['y'])], [], {
        's': [a, 1, 1], 'x': [n, m], 'w': [m, a, 5]}, {'y': [a, m, 5]}


@operand()
def o_pad_axes(E, d):
    """pads computed for one axis only"""
    a, b, n = d('a', 0, 6), d('b', 0, 6), d('n', 1, 64)
    return [out('Concat', 'cc', ['va', 'vb'], ['pads'], axis=0), out('Pad', 'op', ['x', 'pads', '', 'c1'], ['y'])], [], {'s': [a, b, 1], 'x': [2, n]}, {'y': [2, n + a + b]}


@operand()
def o_pad_axis(E, d):
    """the axis of the padding is computed"""
    a, n = d('a', 0, 1), d('n', 1, 64)
    return [out('Pad', 'op', ['x', 'pads', 'pv', 'va'], ['y'])], [('pads', K(E, 2, 1)), ('pv', S(E, 0, f32))], {'s': [a, 1, 1], 'x': [n, 40]}, {
        'y': [E.ite(a == 0, n + 3, n), E.ite(a == 0, 40, 43)]}


@operand()
def o_pad_empty(E, d):
    a, b, n = d('a', 0, 6), d('b', 0, 6), d('n', 1, 64)
    return [out('Concat', 'cc', ['va', 'c0', 'c0', 'vb'], ['pads'], axis=0), out('Pad', 'op', ['x', 'pads', ''], ['y'])], [], {'s': [a, b, 1], 'x': [2, n]}, {'y': [2 + a, n + b]}


@operand()
def o_pad_empty2(E, d):
    a, b, n = d('a', 0, 6), d('b', 0, 6), d('n', 1, 64)
    return [out('Concat', 'cc', ['va', 'c0', 'c0', 'vb'], ['pads'], axis=0), out('Pad', 'op', ['x', 'pads', '', ''], ['y'])], [], {'s': [a, b, 1], 'x': [2, n]}, {'y': [2 + a, n + b]}


def reduce_axis(op, keep):
    def f(E, d):
        a, n = d('a', 0, 1), d('n', 2, 30)
        return [out(op, 'op', ['x', 'va'], ['y'], keepdims=keep)], [], {'s': [a, 1, 1], 'x': [n, 40]}, {
            'y': [E.ite(a == 0, 1, n), E.ite(a == 1, 1, 40)] if keep else [E.ite(a == 0, 40, n)]}
    f.__name__ = f'o_{op.lower()}{keep}'
    return f


for i_, op_ in enumerate(('ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2', 'ReduceSum', 'ReduceMean')):
    operand()(reduce_axis(op_, (0, 1, 1, 0, 1, 0, 0, 1, 1, 0)[i_]))


@operand()
def o_reduce_empty(E, d):
    """the extent of the reshape is computed; the reduction leaves its axes out by an empty name"""
    a, n = d('a', 1, 6), d('n', 2, 30)
    return [out('Concat', 'cc', ['va', 'cm1'], ['t'], axis=0), out('Reshape', 'rs', ['x', 't'], ['r']), out('ReduceSum', 'op', ['r', ''], ['y'], keepdims=1)], [], {
        's': [a, 1, 1], 'x': [n, a]}, {'r': [a, n], 'y': [1, 1]}


@operand()
def o_slice_noaxes(E, d):
    """steps computed, the axes left out"""
    a, n = d('a', 1, 4), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'c0', 'big', '', 'va'], ['y'])], [('big', K(E, 2 ** 31))], {'s': [a, 1, 1], 'x': [n, 3]}, {'y': [(n + a - 1) // a, 3]}


@operand()
def o_slice_trailing(E, d):
    a, n = d('a', 0, 6), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'va', 'big', '', ''], ['y'])], [('big', K(E, 2 ** 31))], {'s': [a, 1, 1], 'x': [n, 3]}, {'y': [E.max(n - a, 0), 3]}


@operand()
def o_slice_nosteps(E, d):
    a, n = d('a', 0, 6), d('n', 1, 64)
    return [out('Slice', 'op', ['x', 'c0', 'va', 'c1', ''], ['y'])], [], {'s': [a, 1, 1], 'x': [2, n]}, {'y': [2, E.min(a, n)]}


@operand()
def o_resize_sizes(E, d):
    a, b, h = d('a', 1, 30), d('b', 1, 30), d('h', 1, 64)
    return [out('Concat', 'cc', ['c1', 'c3', 'va', 'vb'], ['t'], axis=0), out('Resize', 'op', ['x', '', '', 't'], ['y'])], [('c3', K(E, 3))], {
        's': [a, b, 1], 'x': [1, 3, h, 5]}, {'y': [1, 3, a, b]}


@operand()
def o_resize_noroi(E, d):
    """scales with the sizes left out by an empty name"""
    a, b, h = d('a', 1, 6), d('b', 1, 6), d('h', 1, 64)
    return [out('Concat', 'cc', ['c1', 'c1', 'va', 'vb'], ['t'], axis=0), out('Cast', 'ca', ['t'], ['tf'], to=1), out('Resize', 'op', ['x', '', 'tf', ''], ['y'])], [], {
        's': [a, b, 1], 'x': [1, 3, h, 5]}, {'y': [1, 3, h * a, 5 * b]}


@operand()
def o_resize_two(E, d):
    """opset 10: scales as the second input"""
    a, b, h = d('a', 1, 6), d('b', 1, 6), d('h', 1, 64)
    return [out('Concat', 'cc', ['c1', 'c1', 'va', 'vb'], ['t'], axis=0), out('Cast', 'ca', ['t'], ['tf'], to=1), out('Resize', 'op', ['x', 'tf'], ['y'], mode='nearest')], [], {
        's': [a, b, 1], 'x': [1, 3, h, 5]}, {'y': [1, 3, h * a, 5 * b]}


@operand()
def o_split3(E, d):
    a, b, c = d('a', 1, 30), d('b', 1, 30), d('c', 1, 30)
    return [out('Concat', 'cc', ['va', 'vc', 'vb'], ['sp'], axis=0), out('Split', 'op', ['x', 'sp'], ['y', 'z', 'w'], axis=0)], [], {'s': [a, b, c], 'x': [a + b + c, 3]}, {
        'y': [a, 3], 'z': [c, 3], 'w': [b, 3]}


@operand()
def o_unsqueeze2(E, d):
    a, n = d('a', 0, 2), d('n', 2, 30)
    return [out('Concat', 'cc', ['va', 'c3'], ['ax'], axis=0), out('Unsqueeze', 'op', ['x', 'ax'], ['y'])], [('c3', K(E, 3))], {'s': [a, 1, 1], 'x': [n, 40]}, {
        'y': [E.ite(a == 0, 1, n), E.ite(a == 1, 1, E.ite(a == 0, n, 40)), E.ite(a == 2, 1, 40), 1]}


def h_operand(E, name, order, folding):
    d = lambda nm, lo, hi: E.int(f'a{nm}', lo, hi)
    nodes, inits, ins, want = X[name](E, d)
    cn, ci = comp(E, d)
    outs = list(want)
    if name == 'slice_all':
        ins['s'] = ins['s'][:1] + [1] + ins['s'][2:]
    nodes, inits = used(cn + nodes, ci + inits, outs)
    ins = norm_inputs({k: v for k, v in ins.items()})
    if order:
        nodes = nodes[::-1]
    g = mkgraph(E, nodes, [(k, [f'{k}{i}' for i in range(len(s))], dt) for k, (s, dt) in ins.items()], [(o, None, f32) for o in outs], inits, constant_folding=folding)
    if order:
        g.graph_reorder_nodes()
    go(E, g, ins, name)
    check_tensors(E, g, want, name)


def norm_inputs(ins):
    return {k: (v if isinstance(v, tuple) else (v, f32)) for k, v in ins.items()}


def build(E, name, tag, cfg, order=None, declared='sym'):
    d = lambda nm, lo, hi: E.int(f'{tag}{nm}', lo, hi)
    nodes, inits, ins, want, outs = T[name](E, d)
    ins = norm_inputs(ins)
    if order == 'rev':
        nodes = nodes[::-1]
    elif order == 'odd':
        nodes = nodes[1::2] + nodes[::2]
    # the graph declares its inputs with symbolic names: the sizes come at run time
    dim = lambda k, i, v: v if declared == 'fixed' else (f'{k}_{i}' if declared == 'sym' else 1 + i)
    inputs = [(k, [dim(k, i, v) for i, v in enumerate(s)], dt) for k, (s, dt) in ins.items()]
    g = mkgraph(E, nodes, inputs, [(o, None, f32) for o in outs], inits, **cfg)
    return g, ins, want


def feed(E, ins):
    return {k: E.opaque(s, dt, 0) for k, (s, dt) in ins.items()}


def go(E, g, ins, label):
    r = E.call(g.shape_infer, feed(E, ins))
    if not r.ok:
        E.fail(f'{label}: shape inference raises {str(r.exc)[:150]}')


def h_infer(E, name, folding, order):
    cfg = {'constant_folding': folding}
    g, ins, want = build(E, name, 'a', cfg, order)
    if order:
        g.graph_reorder_nodes()
    go(E, g, ins, name)
    check_tensors(E, g, want, name)
    E.check(bool(g.valid_shape), f'{name}: valid_shape')


def h_fixed(E, name, folding):
    """the model declares its input sizes itself: nothing is fed"""
    g, ins, want = build(E, name, 'a', {'constant_folding': folding}, None, 'fixed')
    r = E.call(g.shape_infer, None)
    if not r.ok:
        E.fail(f'{name}: shape inference raises {str(r.exc)[:150]}')
    check_tensors(E, g, want, name)


def h_again(E, name, folding):
    """the same graph inferred at one size and then at another reports the second size"""
    cfg = {'constant_folding': folding}
    g, ins, want = build(E, name, 'a', cfg)
    go(E, g, ins, name)
    check_tensors(E, g, want, 'first')
    d = lambda nm, lo, hi: E.int(f'b{nm}', lo, hi)
    _, _, ins2, want2, _ = T[name](E, d)
    go(E, g, norm_inputs(ins2), name)
    check_tensors(E, g, want2, 'second')


def h_refuse(E, rank, at, two):
    """an input with one negative size, at any rank and position, first or second input"""
    v = E.int('v', -5, -1)
    other = E.ints('o', rank, 1, 9)
    shp = [v if i == at else o for i, o in enumerate(other)]
    g = mkgraph(E, [out('Relu', 'r', ['x'], ['a']), out('Relu', 'q', ['p'], ['b'])], [('x', [2, 3], f32), ('p', ['n'] * rank, f32)] if two else
                [('x', ['n'] * rank, f32), ('p', [2], f32)], [('a', None, f32), ('b', None, f32)])
    g.tensormap['p' if two else 'x'].update_shape(shp)
    r = E.call(g.shape_infer, None)
    E.check(not r.ok and isinstance(r.exc, ValueError) and re.search(r'\bp\b' if two else r'\bx\b', str(r.exc)) is not None,
            'an input with a negative size is refused')
    E.check(not g.valid_shape, 'valid_shape after a refusal')


def h_reject(E, declared):
    """inputs whose size is unknown are refused by name, before anything is inferred"""
    cfg = {}
    g, ins, want = build(E, 'squeeze', 'a', cfg, None, 'sym')
    if declared == 'neg':
        v = E.int('v', -5, -1)
        g.tensormap['x'].update_shape([v, 2, 3])
    r = E.call(g.shape_infer, None)
    E.check(not r.ok and isinstance(r.exc, ValueError) and 'x' in str(r.exc), 'an input without a size is refused')
    E.check(not g.valid_shape, 'valid_shape after a refusal')


def h_if(E, branch, folding):
    """the branch selected by if_fixed_branch replaces the If node; the condition chain disappears"""
    n, h = E.int('n', 1, 64), E.int('h', 1, 64)
    ox = onnx_of(E)
    h_ = ox.helper
    vi = lambda nm: h_.make_tensor_value_info(nm, 1, None)
    tg = h_.make_graph([h_.make_node('Transpose', ['r'], ['t0'], name='tb', perm=[1, 0])], 'then', [], [vi('t0')])
    eg = h_.make_graph([h_.make_node('Relu', ['r'], ['e0'], name='eb0'), h_.make_node('Concat', ['e0', 'r'], ['e1'], name='eb1', axis=0)], 'else', [],
                       [vi('e1')])
    nodes = [out('Relu', 'pre', ['x'], ['r']), out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i0'], ['d0'], axis=0),
             out('Equal', 'eq', ['d0', 'one'], ['c']), out('If', 'if0', ['c'], ['y'], then_branch=tg, else_branch=eg), out('Neg', 'post', ['y'], ['z'])]
    g = mkgraph(E, nodes, [('x', ['N', 'H'], f32)], [('z', None, f32)], [('i0', S(E, 0)), ('one', S(E, 1))],
                if_fixed_branch=branch, constant_folding=folding)
    g.graph_reorder_nodes()
    go(E, g, {'x': ([n, h], f32)}, f'If-{branch}')
    want = [h, n] if branch == 'then' else [2 * n, h]
    check_tensors(E, g, {'y': want, 'z': want, 'r': [n, h]}, f'If-{branch}')
    E.check(sorted(g.nodemap) == sorted({'then': ['pre', 'tb', 'post'], 'else': ['pre', 'eb0', 'eb1', 'post']}[branch]), f'If-{branch}: nodes left')
    E.check(list(g.output) == ['z'], f'If-{branch}: outputs')


def h_if2(E, branch, folding):
    """If with two outputs, one used inside the branch; branch constants; unnamed nodes; a condition chain whose producer has another user"""
    n, h = E.int('n', 1, 64), E.int('h', 2, 64)
    h_ = onnx_of(E).helper
    vi = lambda nm: h_.make_tensor_value_info(nm, 1, None)
    tg = h_.make_graph([h_.make_node('Concat', ['r', 'c'], ['p'], axis=1), h_.make_node('Transpose', ['p'], ['q'], name='post', perm=[1, 0])], 'then', [],
                       [vi('p'), vi('q')], [init(E, 'c', E.opaque([1, 3], f32, 0))])
    eg = h_.make_graph([h_.make_node('Relu', ['r'], ['p']), h_.make_node('Concat', ['p', 'r'], ['q'], axis=1)], 'else', [], [vi('p'), vi('q')])
    nodes = [out('Relu', 'pre', ['x'], ['r']), out('TopK', 'tk', ['x', 'one1'], ['m', 'l'], axis=1),
             out('Cast', 'ca', ['l'], ['lc'], to=9), out('Squeeze', 'sq', ['lc'], ['cond']),
             out('If', 'if0', ['cond'], ['a', 'b'], then_branch=tg, else_branch=eg), out('Neg', 'post', ['a'], ['y']),
             out('Neg', 'pb', ['b'], ['z']), out('Neg', 'pm', ['m'], ['u'])]
    r = E.call(mkgraph, E, nodes, [('x', [1, 'H'], f32)], [('y', None, f32), ('z', None, f32), ('u', None, f32)], [('one1', K(E, 1))],
               if_fixed_branch=branch, constant_folding=folding)
    if not r.ok:
        E.fail(f'If2-{branch}: loading raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    g = r.val
    g.graph_reorder_nodes()
    go(E, g, {'x': ([1, h], f32)}, f'If2-{branch}')
    a = [1, h + 3] if branch == 'then' else [1, h]
    b = [h + 3, 1] if branch == 'then' else [1, 2 * h]
    check_tensors(E, g, {'y': a, 'z': b, 'a': a, 'b': b, 'u': [1, 1], 'r': [1, h]}, f'If2-{branch}')
    ops = sorted(v.op_type for v in g.nodemap.values())
    E.check(ops == sorted(['Relu', 'TopK', 'Neg', 'Neg', 'Neg'] + (['Concat', 'Transpose'] if branch == 'then' else ['Relu', 'Concat'])), f'If2-{branch}: nodes left')
    E.check(list(g.output) == ['y', 'z', 'u'] and list(g.input) == ['x'], f'If2-{branch}: inputs and outputs')


def h_fixk2(E, k):
    """two TopK sharing a computed k, whose producer also feeds something else"""
    n, h = E.int('n', 1, 64), E.int('h', 8, 64)
    nodes = [out('Shape', 'sh', ['x'], ['s']), out('Split', 'sp', ['s'], ['s0', 's1'], axis=0), out('Neg', 'ng', ['s1'], ['k0']), out('Neg', 'ng2', ['k0'], ['k']),
             out('TopK', 'tk', ['x', 'k'], ['v', 'i'], axis=1), out('TopK', 'tk2', ['x', 'k'], ['v2', 'i2'], axis=0), out('Identity', 'id', ['s0'], ['u'])]
    g = mkgraph(E, nodes, [('x', ['N', 'H'], f32)], [('v', None, f32), ('v2', None, f32), ('u', None, i64)], [], fixed_topk=k)
    g.graph_reorder_nodes()
    go(E, g, {'x': ([n, h], f32)}, 'shared k')
    check_tensors(E, g, {'v': [n, k], 'i': [n, k], 'v2': [k, h], 'i2': [k, h], 'u': [1]}, 'shared k')
    E.check(sorted(g.nodemap) == ['id', 'sh', 'sp', 'tk', 'tk2'], 'shared k: nodes left')


def h_clash(E, kind):
    """repeated or clashing node names lose no node"""
    n, h = E.int('n', 1, 64), E.int('h', 1, 64)
    nm = {'repeated': ['a', 'a', 'a', 'a'], 'clash': ['', 'Relu_0', '', 'Transpose_2'], 'later': ['Transpose_1', '', 'x', 'x_1']}[kind]
    nodes = [out('Relu', nm[0], ['x'], ['r']), out('Transpose', nm[1], ['r'], ['t'], perm=[1, 0]), out('Transpose', nm[2], ['t'], ['m'], perm=[1, 0]),
             out('Concat', nm[3], ['m', 'r'], ['y'], axis=1)]
    g = mkgraph(E, nodes, [('x', ['N', 'H'], f32)], [('y', None, f32)])
    go(E, g, {'x': ([n, h], f32)}, kind)
    check_tensors(E, g, {'r': [n, h], 't': [h, n], 'm': [n, h], 'y': [n, 2 * h]}, kind)
    E.check([v.op_type for v in g.nodemap.values()] == [x[0] for x in nodes] and all(k == v.name for k, v in g.nodemap.items()), f'{kind}: every node is kept')


def h_fixk(E, how, k):
    """fixed_topk gives every TopK the stated k, however k was given before"""
    n, h = E.int('n', 1, 64), E.int('h', 8, 64)
    kk = E.int('k', 1, 8)
    inits = [('i1', S(E, 1)), ('ten', K(E, 10)), ('k0', K(E, 3))]
    nodes = []
    if how == 'chain':
        nodes += [out('Shape', 'sh', ['x'], ['s']), out('Gather', 'ga', ['s', 'i1'], ['c'], axis=0), out('Unsqueeze', 'un', ['c'], ['c1'], axes=[0]),
                  out('Concat', 'cc', ['c1', 'ten'], ['cand'], axis=0), out('ReduceMin', 'rm', ['cand'], ['k0c'], axes=[0], keepdims=1)]
    elif how == 'constant':
        nodes += [out('Constant', 'kn', [], ['k0c'], value=K(E, 4))]
    src = 'k0' if how == 'initial' else 'k0c'
    nodes += [out('TopK', 'tk', ['x', src], ['v', 'i'], axis=1), out('Neg', 'ng', ['v'], ['y'])]
    if how != 'chain':
        inits = [t for t in inits if t[0] == 'k0' and how == 'initial']
    g = mkgraph(E, nodes, [('x', ['N', 'H'], f32)], [('y', None, f32), ('i', None, i64)], inits, fixed_topk=k)
    g.graph_reorder_nodes()
    go(E, g, {'x': ([n, h], f32)}, f'fixed k, {how}')
    check_tensors(E, g, {'v': [n, k], 'i': [n, k], 'y': [n, k]}, f'fixed k, {how}')
    E.check(sorted(g.nodemap) == ['ng', 'tk'], f'fixed k, {how}: nodes left')


def h_names(E, kind):
    """nodes without names, and node_rename, change nothing about the shapes"""
    n, h = E.int('n', 1, 64), E.int('h', 1, 64)
    nm = (lambda s: '') if kind == 'unnamed' else (lambda s: s)
    nodes = [out('Relu', nm('a'), ['x'], ['r']), out('Transpose', nm('b'), ['r'], ['t'], perm=[1, 0]), out('MatMul', nm('c'), ['r', 't'], ['m']),
             out('Relu', nm('d'), ['m'], ['y'])]
    g = mkgraph(E, nodes, [('x', ['N', 'H'], f32)], [('y', None, f32)], [], **({'node_rename': True} if kind == 'rename' else {}))
    go(E, g, {'x': ([n, h], f32)}, kind)
    check_tensors(E, g, {'r': [n, h], 't': [h, n], 'm': [n, n], 'y': [n, n]}, kind)
    E.check(len(g.nodemap) == 4 and all(k == v.name and k for k, v in g.nodemap.items()), f'{kind}: four distinct names')


SMALL = {'position', 'squeeze', 'topk'}       # value-evaluated sizes


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for n in T:
        for fold in (False, True):
            for order in (None, 'rev', 'odd'):
                obs.append(Ob(f'{n}-{"fold" if fold else "raw"}-{order or "in-order"}', h_infer, dict(name=n, folding=fold, order=order), weight=2))
            obs.append(Ob(f'{n}-{"fold" if fold else "raw"}-declared', h_fixed, dict(name=n, folding=fold), weight=2))
            obs.append(Ob(f'{n}-{"fold" if fold else "raw"}-twice', h_again, dict(name=n, folding=fold), weight=5))
    for b in ('then', 'else'):
        for fold in (False, True):
            obs.append(Ob(f'if-{b}-{fold}', h_if, dict(branch=b, folding=fold)))
    for how in ('chain', 'constant', 'initial'):
        for k in (1, 5):
            obs.append(Ob(f'fixed_topk-{how}-{k}', h_fixk, dict(how=how, k=k)))
    obs += [Ob(f'if2-{b}-{"fold" if f else "raw"}', h_if2, dict(branch=b, folding=f)) for b in ('then', 'else') for f in (False, True)]
    obs += [Ob(f'fixed_topk-shared-{k}', h_fixk2, dict(k=k)) for k in (1, 5)]
    obs += [Ob(f'clash-{k}', h_clash, dict(kind=k)) for k in ('repeated', 'clash', 'later')]
    obs += [Ob(f'names-{k}', h_names, dict(kind=k)) for k in ('unnamed', 'rename', 'plain')]
    obs += [Ob('unknown-input', h_reject, dict(declared='sym')), Ob('negative-input', h_reject, dict(declared='neg'))]
    for x in X:
        for rev, fold in ((False, False), (True, True)) if not th else ((False, False), (True, True), (True, False), (False, True)):
            obs.append(Ob(f'operand-{x}-{"rev" if rev else "fwd"}-{"fold" if fold else "raw"}', h_operand, dict(name=x, order=rev, folding=fold)))
    for rank in (1, 2, 3, 4):
        for at in range(rank):
            obs.append(Ob(f'refuse-{rank}-{at}', h_refuse, dict(rank=rank, at=at, two=bool((rank + at) % 2))))
    return obs


BOUNDS = {'all': '14 graph families taken from what exporters emit (CNN, reshape/view chains in both spellings, resize to computed sizes, feature pyramid, '
                 'attention, expand, positional range, split/slice, tile/pad, top-k, constant branch, axis tensors, LSTM) of 3-18 nodes; 23 graphs in which one operator (Slice 3-5 inputs, Pad, ConstantOfShape, OneHot, Split, (Un)squeeze, ReduceSum/Mean, Resize, Upsample, Range, Tile, Expand, TopK, Reshape) reads a computed operand; input extents 1 up '
                 'to 8..512 (per family); constant folding on and off; three node orders; declared and fed inputs; two successive sizes; both If '
                 'branches; fixed_topk 1 and 5'}
OUTSIDE = 'other graph topologies; Scan and Loop; nested Ifs; operators and attribute combinations not named in C01-C05 and C07'
ASSUMPTIONS = ['onnx protobufs are modelled by symex/fonnx.py (messages as records, raw data as the array it encodes)']
