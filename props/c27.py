"""C27 - what is left out of a node means its ONNX default."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c06 import mk

f32, f16, f64, i64, i32, u8, i8 = np.float32, np.float16, np.float64, np.int64, np.int32, np.uint8, np.int8
W = lambda *s: (np.arange(int(np.prod(s))).reshape(s) % 5 - 1).astype(f32)
A = lambda *v: np.array(v, i64)
F = lambda *v: np.array(v, f32)
# name -> (operator, extents of x for shapes ('n': any), extents for values or None, element type of x, constants, [variants: (inputs, attributes)], number of outputs)
# the first variant spells out what the others leave out
C = {}


def case(name, op, sym, con, consts, variants, nout=1, dt=f32, cost=True, hi=64):
    C[name] = dict(op=op, symb=sym, conc=con, consts=consts, variants=variants, nout=nout, dt=dt, cost=cost, hi=hi)


NAT = dict(strides=[1, 1], dilations=[1, 1], pads=[0, 0, 0, 0], group=1, kernel_shape=[2, 2])
case('Conv', 'Conv', ['n', 3, 'n', 'n'], [1, 3, 2, 3], {'w': W(2, 3, 2, 2)},
     [(['x', 'w'], NAT), (['x', 'w', ''], NAT), (['x', 'w'], {}), (['x', 'w', ''], {}), (['x', 'w'], dict(NAT, auto_pad='NOTSET')), (['x', 'w'], {'auto_pad': 'NOTSET'}), (['x', 'w'], {'pads': [0, 0, 0, 0]}),
      (['x', 'w'], {'strides': [1, 1]}), (['x', 'w'], {'kernel_shape': [2, 2], 'group': 1})])
case('Conv-valid', 'Conv', ['n', 3, 'n', 'n'], [1, 3, 2, 3], {'w': W(2, 3, 2, 2)}, [(['x', 'w'], NAT), (['x', 'w'], {'auto_pad': 'VALID'}), (['x', 'w', ''], {'auto_pad': 'VALID', 'kernel_shape': [2, 2]})])
case('Conv-same', 'Conv', ['n', 3, 'n', 'n'], [1, 3, 2, 3], {'w': W(2, 3, 3, 3)}, [(['x', 'w'], {'auto_pad': a, 'strides': [1, 1], 'dilations': [1, 1], 'group': 1}) for a in ('SAME_UPPER', 'SAME_LOWER')] +
     [(['x', 'w', ''], {'pads': [1, 1, 1, 1]}), (['x', 'w'], {'auto_pad': 'SAME_UPPER'})])
case('Conv-1d', 'Conv', ['n', 3, 'n'], None, {'w': W(2, 3, 2)}, [(['x', 'w'], dict(strides=[1], dilations=[1], pads=[0, 0], group=1, kernel_shape=[2])), (['x', 'w', ''], {}), (['x', 'w'], {'auto_pad': 'NOTSET'})])
case('Conv-3d', 'Conv', ['n', 3, 'n', 'n', 'n'], None, {'w': W(2, 3, 2, 1, 2)}, [(['x', 'w'], dict(strides=[1] * 3, dilations=[1] * 3, pads=[0] * 6, group=1, kernel_shape=[2, 1, 2])), (['x', 'w', ''], {}),
                                                                           (['x', 'w'], {'strides': [1, 1, 1]})])
TN = dict(NAT, output_padding=[0, 0])
case('ConvTranspose', 'ConvTranspose', ['n', 3, 'n', 'n'], None, {'w': W(3, 2, 2, 2)},
     [(['x', 'w'], TN), (['x', 'w', ''], TN), (['x', 'w'], {}), (['x', 'w', ''], {}), (['x', 'w'], {'auto_pad': 'NOTSET'}), (['x', 'w'], {'strides': [1, 1]}), (['x', 'w'], {'pads': [0] * 4, 'group': 1})])
case('ConvInteger', 'ConvInteger', ['n', 3, 'n', 'n'], None, {'w': W(2, 3, 2, 2).astype(i8)}, [(['x', 'w'], NAT), (['x', 'w', '', ''], NAT), (['x', 'w', ''], {}), (['x', 'w'], {})], dt=u8)
case('Gemm', 'Gemm', ['n', 3], [2, 3], {'w': W(3, 2)}, [(['x', 'w'], dict(alpha=1.0, beta=1.0, transA=0, transB=0)), (['x', 'w', ''], dict(alpha=1.0, beta=1.0, transA=0, transB=0)), (['x', 'w'], {}), (['x', 'w', ''], {}),
                                                        (['x', 'w'], {'transB': 0}), (['x', 'w', ''], {'transA': 0})])
case('Gemm-c', 'Gemm', ['n', 3], [2, 3], {'w': W(3, 2), 'c': F(1, -2)}, [(['x', 'w', 'c'], dict(alpha=1.0, beta=1.0, transA=0, transB=0)), (['x', 'w', 'c'], {}), (['x', 'w', 'c'], {'alpha': 1.0})])
case('MatMulInteger', 'MatMulInteger', ['n', 3], None, {'w': W(3, 2).astype(i8)}, [(['x', 'w'], {}), (['x', 'w', '', ''], {}), (['x', 'w', ''], {})], dt=u8)
PL = dict(strides=[1, 1], pads=[0] * 4, ceil_mode=0)
KS = {'kernel_shape': [2, 2]}
case('MaxPool', 'MaxPool', ['n', 3, 'n', 'n'], [1, 2, 2, 3], {}, [(['x'], dict(PL, dilations=[1, 1], storage_order=0, **KS)), (['x'], KS), (['x'], dict(KS, auto_pad='NOTSET')), (['x'], dict(KS, auto_pad='VALID')), (['x'], dict(KS, strides=[1, 1])),
                                                             (['x'], dict(KS, dilations=[1, 1])), (['x'], dict(KS, ceil_mode=0))])
case('MaxPool-1d', 'MaxPool', ['n', 3, 'n'], None, {}, [(['x'], dict(kernel_shape=[3], strides=[1], pads=[0, 0], ceil_mode=0, dilations=[1])), (['x'], {'kernel_shape': [3]}), (['x'], {'kernel_shape': [3], 'auto_pad': 'VALID'})])
case('MaxPool-3d', 'MaxPool', ['n', 3, 'n', 'n', 'n'], None, {}, [(['x'], dict(kernel_shape=[3, 1, 2], strides=[1] * 3, pads=[0] * 6, ceil_mode=0, dilations=[1] * 3)), (['x'], {'kernel_shape': [3, 1, 2]})])
case('MaxPool-idx', 'MaxPool', ['n', 3, 'n', 'n'], None, {}, [(['x'], dict(PL, dilations=[1, 1], **KS)), (['x'], KS)], nout=2)
case('AveragePool', 'AveragePool', ['n', 3, 'n', 'n'], None, {}, [(['x'], dict(PL, count_include_pad=0, **KS)), (['x'], KS), (['x'], dict(KS, auto_pad='NOTSET')), (['x'], dict(KS, auto_pad='VALID'))])
for nm, g, no in (('LSTM', 4, 3), ('GRU', 3, 2)):
    R = {'w': W(1, g * 2, 3), 'r': W(1, g * 2, 2)}
    at = {'hidden_size': 2}
    case(nm, nm, ['n', 'n', 3], None, R, [(['x', 'w', 'r'], dict(at, direction='forward')), (['x', 'w', 'r'], at), (['x', 'w', 'r', ''], at), (['x', 'w', 'r', '', ''], at), (['x', 'w', 'r', '', '', ''], at),
                                         (['x', 'w', 'r', '', '', ''] + [''] * (no - 2), dict(at, direction='forward'))], nout=no)
for op in ('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2'):
    case(op, op, ['n', 'n', 'n'], [2, 1, 2], {'a': A(0, 1, 2)}, [(['x', 'a'], dict(keepdims=1)), (['x'], dict(keepdims=1)), (['x'], {}), (['x', ''], {}), (['x', ''], {'keepdims': 1}), (['x', 'a'], {}), (['x'], {'axes': [0, 1, 2]}), (['x'], {'noop_with_empty_axes': 0})],
         cost='macs', hi=12 if op == 'ReduceL2' else 64)
case('Squeeze', 'Squeeze', [1, 'n', 1], [1, 2, 1], {'a': A(0, 2)}, [(['x', 'a'], {}), (['x'], {'axes': [0, 2]}), (['x'], {'axes': [-3, -1]})], cost='macs')
case('Squeeze-all', 'Squeeze', None, [1, 2, 1], {'a': A(0, 2)}, [(['x', 'a'], {}), (['x'], {}), (['x', ''], {})])
case('Squeeze-all-c', 'Squeeze', [1, 5, 1], None, {'a': A(0, 2)}, [(['x', 'a'], {}), (['x'], {}), (['x', ''], {})], cost='macs')
case('Split', 'Split', [4, 'n'], [4, 2], {'s': A(2, 2)}, [(['x', 's'], {'axis': 0}), (['x', 's'], {}), (['x'], {}), (['x', ''], {}), (['x', ''], {'axis': 0}), (['x'], {'num_outputs': 2}), (['x'], {'split': [2, 2]})], nout=2, cost='macs')
S = {'s': A(1, 0), 'e': A(3, 2), 'a': A(0, 1), 't': A(1, 1), 't2': A(1, 2)}
case('Slice', 'Slice', ['n', 'n', 'n'], [3, 2, 2], S, [(['x', 's', 'e', 'a', 't'], {}), (['x', 's', 'e', 'a'], {}), (['x', 's', 'e'], {}), (['x', 's', 'e', ''], {}), (['x', 's', 'e', '', ''], {}), (['x', 's', 'e', '', 't'], {}), (['x', 's', 'e', 'a', ''], {}),
                                                  (['x'], dict(starts=[1, 0], ends=[3, 2])), (['x'], dict(starts=[1, 0], ends=[3, 2], axes=[0, 1]))], cost='macs')
case('Slice-t', 'Slice', ['n', 'n', 'n'], [3, 2, 2], S, [(['x', 's', 'e', 'a', 't2'], {}), (['x', 's', 'e', '', 't2'], {})], cost='macs')
P = {'p': A(0, 1, 0, 2), 'z': np.array(0, f32), 'a': A(0, 1), 'a1': A(1), 'p1': A(1, 2), 'am': A(-1)}
case('Pad', 'Pad', ['n', 'n'], [2, 2], P, [(['x', 'p', 'z'], {'mode': 'constant'}), (['x', 'p', 'z'], {}), (['x', 'p', ''], {}), (['x', 'p'], {}), (['x', 'p'], {'mode': 'constant'}), (['x', 'p', '', ''], {}), (['x', 'p', '', 'a'], {}), (['x', 'p', 'z', 'a'], {}),
                                        (['x', 'p1', '', 'a1'], {}), (['x', 'p1', 'z', 'am'], {}), (['x'], {'pads': [0, 1, 0, 2]}), (['x'], {'pads': [0, 1, 0, 2], 'value': 0.0})], cost='macs')
B = {'lo': np.array(-2, f32), 'hi': np.array(1, f32), 'min': np.array(-3.4028234e38, f32), 'max': np.array(3.4028234e38, f32)}
case('Clip-lo', 'Clip', ['n', 'n'], [2, 2], B, [(['x', 'lo', 'max'], {}), (['x', 'lo'], {}), (['x', 'lo', ''], {}), (['x'], {'min': -2.0})], cost='macs')
case('Clip-hi', 'Clip', ['n', 'n'], [2, 2], B, [(['x', 'min', 'hi'], {}), (['x', '', 'hi'], {}), (['x'], {'max': 1.0})], cost='macs')
case('Clip-no', 'Clip', ['n', 'n'], [2, 2], B, [(['x', 'min', 'max'], {}), (['x'], {}), (['x', '', ''], {}), (['x', ''], {})], cost='macs')
Z = {'s': F(1, 1, 2, 3), 'z': A(1, 2, 4, 9), 'r': np.zeros(0, f32), 'e': np.zeros(0, f32)}
case('Resize', 'Resize', [1, 2, 'n', 'n'], None, Z, [(['x', '', 's'], {'mode': 'nearest'}), (['x', '', 's'], {}), (['x', 'r', 's'], {}), (['x', '', 's', ''], {})], cost='macs')
case('Resize-sizes', 'Resize', [1, 2, 'n', 'n'], None, Z, [(['x', '', '', 'z'], {'mode': 'nearest'}), (['x', 'r', 'e', 'z'], {}), (['x', '', 'e', 'z'], {}), (['x', '', '', 'z'], {})], cost='macs')
case('Upsample', 'Upsample', [1, 2, 'n', 'n'], None, Z, [(['x', 's'], {'mode': 'nearest'}), (['x', 's'], {})])
D = {'q': np.array(0.5, f32), 'f': np.array(False)}
case('Dropout', 'Dropout', ['n', 'n'], [2, 2], D, [(['x', 'q', 'f'], {}), (['x'], {}), (['x', ''], {}), (['x', '', ''], {}), (['x', '', 'f'], {}), (['x', 'q'], {}), (['x', 'q', ''], {})], cost='macs')
case('TopK', 'TopK', ['n', 7], None, {'k': A(3)}, [(['x', 'k'], dict(axis=-1, largest=1, sorted=1)), (['x', 'k'], {}), (['x', 'k'], {'axis': 1}), (['x', 'k'], {'largest': 1})], nout=2)
case('ArgMax', 'ArgMax', [5, 'n'], [2, 3], {}, [(['x'], dict(axis=0, keepdims=1, select_last_index=0)), (['x'], {}), (['x'], {'axis': 0}), (['x'], {'keepdims': 1}), (['x'], {'axis': -2})], hi=6)
Q = {'s': np.array(0.5, f32), 'z': np.array(0, u8), 'zi': np.array(0, i8)}
case('QuantizeLinear', 'QuantizeLinear', ['n', 'n'], None, Q, [(['x', 's', 'z'], {'axis': 1}), (['x', 's', 'z'], {}), (['x', 's'], {}), (['x', 's', ''], {})], cost='macs')
case('DequantizeLinear', 'DequantizeLinear', ['n', 'n'], None, Q, [(['x', 's', 'z'], {'axis': 1}), (['x', 's', 'z'], {}), (['x', 's'], {}), (['x', 's', ''], {})], dt=u8, cost='macs')
N = {'g': F(1, 2, -1), 'b': F(0, 0, 0)}
case('LayerNormalization', 'LayerNormalization', ['n', 'n', 3], None, N, [(['x', 'g'], dict(axis=-1, epsilon=1e-5, stash_type=1)), (['x', 'g'], {}), (['x', 'g', ''], {}), (['x', 'g'], {'axis': -1}), (['x', 'g'], {'axis': 2}), (['x', 'g'], {'epsilon': 1e-5})])
case('LayerNormalization-3', 'LayerNormalization', ['n', 'n', 3], None, N, [(['x', 'g', 'b'], dict(axis=-1, epsilon=1e-5)), (['x', 'g', 'b'], {})], nout=3)
BN = {'g': F(1, 2, -1), 'b': F(0, 1, 0), 'm': F(1, 1, 1), 'v': F(1, 4, 2)}
case('BatchNormalization', 'BatchNormalization', ['n', 3, 'n'], [1, 3, 2], BN, [(['x', 'g', 'b', 'm', 'v'], dict(epsilon=1e-5, momentum=0.9, training_mode=0)), (['x', 'g', 'b', 'm', 'v'], {}), (['x', 'g', 'b', 'm', 'v'], {'momentum': 0.9}),
                                                                              (['x', 'g', 'b', 'm', 'v'], {'epsilon': 1e-5})])
case('InstanceNormalization', 'InstanceNormalization', ['n', 3, 'n'], None, BN, [(['x', 'g', 'b'], {'epsilon': 1e-5}), (['x', 'g', 'b'], {})])
for op in ('Softmax', 'LogSoftmax'):
    case(op, op, ['n', 'n'], [2, 2] if op == 'Softmax' else None, {}, [(['x'], {'axis': -1}), (['x'], {}), (['x'], {'axis': 1})])
case('Hardmax', 'Hardmax', ['n', 'n'], None, {}, [(['x'], {'axis': -1}), (['x'], {})])
case('Flatten', 'Flatten', ['n', 'n', 'n'], [2, 1, 2], {}, [(['x'], {'axis': 1}), (['x'], {}), (['x'], {'axis': -2})], hi=8)
G = {'i': A(1, 0), 'j': np.array([[1, 0], [0, 1]], i64), 'u': W(2, 2), 'd': np.array(3, i64), 'v': F(0, 1), 'k': np.array(0, i64), 'ax': np.array(1, i64)}
case('Gather', 'Gather', [2, 'n'], [2, 2], G, [(['x', 'i'], {'axis': 0}), (['x', 'i'], {}), (['x', 'i'], {'axis': -2})])
case('GatherElements', 'GatherElements', [2, 2], [2, 2], G, [(['x', 'j'], {'axis': 0}), (['x', 'j'], {}), (['x', 'j'], {'axis': -2})])
case('GatherND', 'GatherND', [2, 'n'], [2, 2], {'i': np.array([[1], [0]], i64)}, [(['x', 'i'], {'batch_dims': 0}), (['x', 'i'], {})])
case('ScatterElements', 'ScatterElements', [2, 'n'], None, G, [(['x', 'j', 'u'], {'axis': 0, 'reduction': 'none'}), (['x', 'j', 'u'], {}), (['x', 'j', 'u'], {'axis': 0}), (['x', 'j', 'u'], {'axis': -2})])
case('ScatterND', 'ScatterND', [2, 2], [2, 2], {'i': np.array([[1]], i64), 'u': W(1, 2)}, [(['x', 'i', 'u'], {'reduction': 'none'}), (['x', 'i', 'u'], {})])
case('OneHot', 'OneHot', ['n', 'n'], None, G, [(['x', 'd', 'v'], {'axis': -1}), (['x', 'd', 'v'], {}), (['x', 'd', 'v'], {'axis': 2})], dt=i64)
case('CumSum', 'CumSum', ['n', 'n'], [2, 2], G, [(['x', 'ax'], {'exclusive': 0, 'reverse': 0}), (['x', 'ax'], {}), (['x', 'ax'], {'exclusive': 0})])
case('Trilu', 'Trilu', ['n', 'n'], [3, 3], G, [(['x', 'k'], {'upper': 1}), (['x', 'k'], {}), (['x'], {}), (['x', ''], {}), (['x'], {'upper': 1})], cost='macs')
case('DepthToSpace', 'DepthToSpace', ['n', 8, 'n', 'n'], None, {}, [(['x'], {'blocksize': 2, 'mode': 'DCR'}), (['x'], {'blocksize': 2})])
case('Transpose', 'Transpose', ['n', 'n', 'n'], [1, 2, 3], {}, [(['x'], {'perm': [2, 1, 0]}), (['x'], {})])
case('Shape', 'Shape', [4, 'n', 5], [4, 1, 2], {}, [(['x'], {'start': 0, 'end': 3}), (['x'], {}), (['x'], {'start': 0}), (['x'], {'start': -3}), (['x'], {'end': 9})])
case('LeakyRelu', 'LeakyRelu', ['n', 'n'], [2, 2], {}, [(['x'], {'alpha': 0.01}), (['x'], {})])
case('Elu', 'Elu', ['n', 'n'], None, {}, [(['x'], {'alpha': 1.0}), (['x'], {})])
case('HardSigmoid', 'HardSigmoid', ['n', 'n'], [2, 2], {}, [(['x'], {'alpha': 0.2, 'beta': 0.5}), (['x'], {}), (['x'], {'beta': 0.5})])
case('Mod', 'Mod', ['n', 'n'], [2, 2], {'m': np.array(3, i64)}, [(['x', 'm'], {'fmod': 0}), (['x', 'm'], {})], dt=i64)
case('LRN', 'LRN', ['n', 3, 'n', 'n'], None, {}, [(['x'], dict(size=3, alpha=0.0001, beta=0.75, bias=1.0)), (['x'], dict(size=3))])
case('RoiAlign', 'RoiAlign', ['n', 3, 'n', 'n'], None, {'r': W(2, 4), 'b': A(0, 0)}, [(['x', 'r', 'b'], dict(output_height=1, output_width=1, mode='avg', sampling_ratio=0, spatial_scale=1.0)), (['x', 'r', 'b'], {}), (['x', 'r', 'b'], {'output_height': 1})])
case('LpNormalization', 'LpNormalization', ['n', 'n'], None, {}, [(['x'], {'axis': -1, 'p': 2}), (['x'], {})])
case('Cast', 'Cast', ['n', 'n'], [2, 2], {}, [(['x'], {'to': 7, 'saturate': 1}), (['x'], {'to': 7})])
NM = {'sc': W(1, 2, 6), 'k0': A(0), 'k2': A(2), 't': F(0.0)}
case('NonMaxSuppression', 'NonMaxSuppression', [1, 6, 4], None, NM, [(['x', 'sc', 'k2', 't', 't'], {'center_point_box': 0}), (['x', 'sc', 'k2'], {}), (['x', 'sc', 'k2', ''], {}), (['x', 'sc', 'k2', '', ''], {}), (['x', 'sc', 'k2', 't'], {}), (['x', 'sc', 'k2', '', 't'], {})], cost='macs')
case('GridSample', 'GridSample', ['n', 2, 'n', 'n'], None, {'g': W(1, 3, 4, 2)}, [(['x', 'g'], dict(align_corners=0, mode='bilinear', padding_mode='zeros')), (['x', 'g'], {}), (['x', 'g'], {'align_corners': 0})])
QC = {'xs': np.array(0.5, f32), 'xz': np.array(3, u8), 'w': W(2, 3, 2, 2).astype(i8), 'ws': np.array(0.5, f32), 'wz': np.array(0, i8), 'ys': np.array(0.25, f32), 'yz': np.array(1, u8)}
QI = ['x', 'xs', 'xz', 'w', 'ws', 'wz', 'ys', 'yz']
case('QLinearConv', 'QLinearConv', ['n', 3, 'n', 'n'], None, QC, [(QI, NAT), (QI, {}), (QI + [''], {}), (QI, {'auto_pad': 'NOTSET'}), (QI, {'auto_pad': 'VALID'}), (QI, {'strides': [1, 1]})], dt=u8)
case('Reshape', 'Reshape', [2, 'n'], [2, 3], {'t': A(0, -1, 1)}, [(['x', 't'], {'allowzero': 0}), (['x', 't'], {})])
case('Gelu', 'Gelu', ['n', 'n'], None, {}, [(['x'], {'approximate': 'none'}), (['x'], {})])
for op in ('RandomUniformLike', 'RandomNormalLike'):
    case(op, op, ['n', 'n'], None, {}, [(['x'], {'dtype': 1}), (['x'], {})])
case('Concat', 'Concat', ['n', 2], [2, 2], {'w': W(2, 2)}, [(['x', 'x'], {'axis': 1}), (['x', 'x'], {'axis': -1})])
case('Softmax-axis', 'Softmax', ['n', 'n', 'n'], [2, 1, 2], {}, [(['x'], {'axis': 2}), (['x'], {'axis': -1}), (['x'], {})])
case('LSTM-state', 'LSTM', ['n', 'n', 3], None, {'w': W(1, 8, 3), 'r': W(1, 8, 2), 'b': W(1, 16)}, [(['x', 'w', 'r', 'b', '', '', ''], dict(hidden_size=2, direction='forward', layout=0)), (['x', 'w', 'r', 'b'], {'hidden_size': 2}),
                                                                                        (['x', 'w', 'r', 'b', ''], {'hidden_size': 2, 'input_forget': 0}), (['x', 'w', 'r', 'b', '', '', '', ''], {'hidden_size': 2})], nout=3)


def one(E, c, x, inp, attrs, feed=None, outs=None):
    used = [k for k in dict.fromkeys(inp) if k in c['consts']]
    outs = outs or [f'y{i}' for i in range(c['nout'])]
    g = mkgraph(E, [out(c['op'], 'n', inp, outs, **attrs)], [('x', x, c['dt'])], [(o, None, c['dt']) for o in outs if o], [(k, E.array(c['consts'][k], c['consts'][k].dtype)) for k in used])
    if feed is None:
        r = E.call(g.shape_infer)
        if not r.ok:
            return f'shape inference raises {str(r.exc)[:80]}'
        sh = [g.tensormap[o].get_shape() if o else None for o in outs]
        ty = [np.dtype(g.tensormap[o].dtype) if o else None for o in outs]
        cost = None
        if c['cost']:
            r = E.call(g.profile)
            if not r.ok:
                return f'profile raises {type(r.exc).__name__}: {str(r.exc)[:80]}'
            n = g.nodemap['n']
            cost = [n.macs] + ([g.params, g.memory] if c['cost'] is True else [])
        return sh, ty, cost
    r = E.call(g.value_infer, {'x': feed})
    if not r.ok:
        return f'value_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}'
    return [E.ishape(v) if v is not None else None for v in r.val], [None if v is None else np.dtype(v.dtype) for v in r.val], [None if v is None else E.elems(v) for v in r.val]


def label(inp, attrs):
    return f"({','.join(i or '-' for i in inp)}){attrs}"


def h_shape(E, name):
    c = C[name]
    x = [E.int(f'x{i}', 4, c['hi']) if d == 'n' else d for i, d in enumerate(c['symb'])]
    want = None
    for inp, attrs in c['variants']:
        got = one(E, c, list(x), inp, attrs)
        lb = f'{name} {label(inp, attrs)}'
        if isinstance(got, str):
            E.fail(f'{lb}: {got}')
        if want is None:
            want = got
            for s in got[0]:
                E.observe(f'{lb} shape', s)
            continue
        for i in range(c['nout']):
            E.check(E.same(got[0][i], want[0][i]), f'{lb}: shape of output {i}')
            E.check(got[1][i] == want[1][i], f'{lb}: element type of output {i}')
        if c['cost']:
            E.check(E.all(*[E.eq(a, b) for a, b in zip(got[2], want[2])]), f'{lb}: cost')


def h_value(E, name):
    c = C[name]
    X = mk(E, 'x', tuple(c['conc']), c['dt'], -4, 4)
    want = None
    for inp, attrs in c['variants']:
        got = one(E, c, list(c['conc']), inp, attrs, X)
        lb = f'{name} {label(inp, attrs)}'
        if isinstance(got, str):
            E.fail(f'{lb}: {got}')
        if want is None:
            want = got
            continue
        for i in range(c['nout']):
            ok = got[2][i] is not None and want[2][i] is not None and E.same(got[0][i], want[0][i]) and got[1][i] == want[1][i]
            E.check(ok, f'{lb}: output {i}: shape and type of the value')
            if ok is not False:
                E.check(E.all(*[E.close(a, b, 1e-6) for a, b in zip(got[2][i], want[2][i])]), f'{lb}: value of output {i}')


def h_outputs(E, name, omit):
    """an output that is not asked for (an empty name, or no name at the end of the list) changes nothing else"""
    c = C[name]
    x = [E.int(f'x{i}', 4, c['hi']) if d == 'n' else d for i, d in enumerate(c['symb'])]
    want = None
    full = [f'y{i}' for i in range(c['nout'])]
    empty = [o if i not in omit else '' for i, o in enumerate(full)]
    short = list(empty)
    while not short[-1]:
        short.pop()
    for inp, attrs in c['variants'][:2]:
        for outs in [full, empty] + ([short] if short != empty else []):
            got = one(E, c, list(x), inp, attrs, outs=outs)
            lb = f'{name} {label(inp, attrs)} -> {outs}'
            if isinstance(got, str):
                E.fail(f'{lb}: {got}')
            if want is None:
                want = got
                continue
            for i, o in enumerate(outs):
                if o:
                    E.check(E.same(got[0][i], want[0][i]), f'{lb}: shape of output {i}')
                    E.check(got[1][i] == want[1][i], f'{lb}: element type of output {i}')
            E.check(E.eq(got[2][0], want[2][0]), f'{lb}: MACs')


GN = [('Relu', 'r0', ['x'], ['x1'], {}), ('LSTM', 'n', ['x1', 'w', 'r', '', '', 'h0', 'c0'], ['', 'h', 'c'], {'hidden_size': 2}), ('Relu', 'r1', ['h'], ['q'], {}),
      ('Clip', 'cl', ['q', '', 'mx'], ['q2'], {}), ('LSTM', 'n2', ['x1', 'w', 'r', '', '', 'q2'], ['', '', 'c2'], {'hidden_size': 2}), ('Add', 'ad', ['q2', 'c2'], ['z'], {})]
GP = {'r0': [], 'n': ['r0'], 'r1': ['n'], 'cl': ['r1'], 'n2': ['r0', 'cl'], 'ad': ['cl', 'n2']}


def h_graph(E, what):
    """several nodes of one graph leave out operands and results: nothing connects them, nothing is lost"""
    s, b = E.int('s', 1, 64), 3
    named = E.choice('named', [False, True])        # the same results with names of their own
    rot, rev = E.choice('rotate', [0, 1, 2, 3, 4, 5]), E.choice('reverse', [False, True])
    dangling = E.choice('remove_dangling', [False, True])
    folding = E.choice('constant_folding', [True, False])
    nodes = [list(n) for n in GN]
    full = {}
    if named:
        nodes[1][3] = ['y', 'h', 'c']
        nodes[4][3] = ['y2', 'h2', 'c2']
    order = [(rot + i) % 6 for i in range(6)]
    order = order[::-1] if rev else order
    z = lambda *q: E.array(np.ones(q, f32), f32)
    g = mkgraph(E, [tuple(nodes[i]) for i in order], [('x', [s, b, 3], f32)], [('z', None, f32)], [('w', z(1, 8, 3)), ('r', z(1, 8, 2)), ('h0', z(1, b, 2)), ('c0', z(1, b, 2)), ('mx', E.array(np.array(1, f32), f32))],
                constant_folding=folding, remove_dangling=dangling)
    acts = ['x', 'x1', 'h', 'c', 'q', 'q2', 'c2', 'z'] + (['y', 'y2', 'h2'] if named else [])
    E.check(sorted(g.dynamics) == sorted(acts), 'the activations are the named tensors')
    r = E.call(g.graph_reorder_nodes)
    if not r.ok:
        E.fail(f'graph_reorder_nodes raises {r.exc}')
    names = list(g.nodemap)
    E.check(sorted(names) == sorted(GP), 'no node is lost')
    pos = {n: i for i, n in enumerate(names)}
    for n, ps in GP.items():
        E.check(all(pos[p] < pos[n] for p in ps), f'{n} comes after what it reads')
        k = [m for m in nodes if m[1] == n][0]
        E.check(list(g.nodemap[n].input) == k[2] and list(g.nodemap[n].output) == k[3], f'{n} keeps its operands and results')
    E.check(not g.producedby.get('') and not g.consumedby.get(''), 'nothing produces or reads the empty name')
    E.check(sorted(g.dynamics) == sorted(acts) and list(g.input) == ['x'] and sorted(g.output) == (['z'] if dangling else sorted(['c', 'z'] + (['y', 'y2', 'h2'] if named else []))), 'activations, inputs and outputs stay')
    E.check(sorted(i for i in g.initials) == ['c0', 'h0', 'mx', 'r', 'w'], 'the weights stay')
    r = E.call(g.shape_infer)
    if not r.ok:
        E.fail(f'shape_infer raises {r.exc}')
    st = [1, b, 2]
    want = dict(x1=[s, b, 3], h=st, c=st, q=st, q2=st, c2=st, z=st)
    if named:
        want.update(y=[s, 1, b, 2], y2=[s, 1, b, 2], h2=st)
    check_tensors(E, g, want, 'graph')
    if what == 'cost':
        r = E.call(g.profile)
        if not r.ok:
            E.fail(f'profile raises {type(r.exc).__name__}: {r.exc}')
        # the same costs as alone, the operands and results left out counting nothing
        wt = (24 + 16) * 4
        mem = {'r0': s * b * 12, 'n': wt + b * 8 * 4, 'r1': b * 8, 'cl': b * 8, 'n2': wt + b * 8, 'ad': b * 8}
        if named:
            mem['n'] += s * b * 8
            mem['n2'] += s * b * 8 + b * 8
        for n in GP:
            E.observe(f'memory of {n}', g.nodemap[n].memory)
            E.check(E.eq(g.nodemap[n].memory, mem[n]), f'memory of {n}')
        E.check(E.eq(g.nodemap['n'].macs, g.nodemap['n2'].macs), 'the state left out or not, the same MACs')
        E.check(E.eq(g.macs[0], sum(g.nodemap[n].macs for n in GP)), 'MACs of the graph')
        E.check(E.eq(g.memory, sum(g.nodemap[n].memory for n in GP)), 'memory of the graph')
    elif what == 'plan':
        cg = E.call(g.get_compute_graph)
        if not cg.ok:
            E.fail(f'get_compute_graph raises {type(cg.exc).__name__}: {cg.exc}')
        E.check(sorted(cg.val.nodemap) == sorted(GP) and '' not in cg.val.dynamics, 'the compute graph keeps every node')
        sub = E.call(g.get_subgraph, ['x1'], ['q2'])
        if not sub.ok:
            E.fail(f'get_subgraph raises {sub.exc}')
        E.check([sorted(x.nodemap) for x in sub.val] == [['r0'], ['cl', 'n', 'r1'], ['ad', 'n2']], 'the three parts around a subgraph')
        i, o = g.get_iotensors(['n', 'r1'])
        E.check(list(i) == ['x1'] and sorted(o) == sorted(['c', 'q'] + (['y'] if named else [])), 'inputs and outputs of a set of nodes')
        m = g.make_graph_onnx(list(g.nodemap), 'g', g.input, g.output)
        for nd in m.node:
            k = [q for q in nodes if q[1] == nd.name][0]
            E.check(list(nd.input) == k[2] and list(nd.output) == k[3], f'{nd.name}: the places of what is left out are kept in the saved graph')
        E.check('' not in [v.name for v in m.value_info] and [v.name for v in m.input] == ['x'] and sorted(t.name for t in m.initializer) == ['c0', 'h0', 'mx', 'r', 'w'], 'what is left out is no tensor of the saved graph')
    elif what == 'edit':
        # edits of one node with left out names do not touch the other
        E.call(g.remove_node, 'n2')
        E.check(sorted(g.nodemap) == sorted(set(GP) - {'n2'}), 'one node is removed')
        E.check(not g.producedby.get('c2') and list(g.producedby['h']) == ['n'] and list(g.producedby['c']) == ['n'] and list(g.consumedby['q2']) == ['ad'] and list(g.consumedby['x1']) == ['n'], 'the tables without it')
        k = nodes[1]
        E.check(list(g.nodemap['n'].input) == k[2] and list(g.nodemap['n'].output) == k[3], 'the other is untouched')
        E.call(g.skip_node, 'r1')
        E.check(list(g.nodemap['cl'].input) == ['h', '', 'mx'] and list(g.nodemap['cl'].output) == ['q2'], 'the reader of a skipped node')


def obligations(tier):
    obs = []
    for n, c in C.items():
        if c['symb'] is not None:
            obs.append(Ob(f'shape-{n}', h_shape, dict(name=n)))
        if c['conc'] is not None:
            obs.append(Ob(f'value-{n}', h_value, dict(name=n), poly=True))
        if c['nout'] > 1 and c['cost'] and c['symb'] is not None and n not in ('Split', 'TopK'):
            for m in range(1, 2 ** c['nout'] - 1):
                omit = [i for i in range(c['nout']) if m >> i & 1]
                if 0 in omit and c['op'] not in ('LSTM', 'GRU'):      # only optional results can be left out
                    continue
                obs.append(Ob(f'outputs-{n}-{m}', h_outputs, dict(name=n, omit=omit)))
    obs += [Ob(f'graph-{w}', h_graph, dict(what=w), weight=3) for w in ('cost', 'plan', 'edit')]
    return obs


BOUNDS = {'shape': f'{len(C)} cases of {len(set(c["op"] for c in C.values()))} operators, 2-9 spellings each; free extents 4..64 (smaller where costs are powers), ranks 2-5; shapes, element types, MACs, parameters and memory of every spelling equal those of the one spelled out',
          'value': 'the cases with an evaluation: every element symbolic in [-4, 4] (integers for integer types)', 'outputs': 'every proper subset of the optional outputs left out, as an empty name and, at the end, as no name',
          'graph': 'six nodes (two LSTM and a Clip leaving out operands and results), sequence length 1..64, 12 listings, with constant folding and removal of dangling nodes on and off'}
OUTSIDE = 'defaults of operators the tool has no rules for; opset versions whose default differs (axis of Softmax before 13): the tool follows the newest; the state of LSTM/GRU given or not changes memory, so only MACs are compared'
ASSUMPTIONS = ['element arithmetic is real arithmetic; square root and exponential are uninterpreted (equal arguments, equal results)']
