"""C14 - tensor data: TensorProto / ValueInfoProto <-> Tensor, exactly."""
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *

NPT = {'f32': np.float32, 'f64': np.float64, 'f16': np.float16, 'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'u16': np.uint16, 'i32': np.int32,
       'u32': np.uint32, 'i64': np.int64, 'u64': np.uint64, 'bool': np.bool_}
DT.update({np.dtype(np.uint32): 12, np.dtype(np.uint64): 13})
RANGE = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2 ** 15, 2 ** 15 - 1), 'u16': (0, 2 ** 16 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1),
         'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1)}
SHAPES = [[], [1], [3], [0], [2, 2], [1, 3, 1], [2, 1, 2]]


def values(E, dt, shape, nm='v'):
    n = prod(shape) if shape else 1
    if dt in RANGE:
        lo, hi = RANGE[dt]
        vs = [E.int(f'{nm}{i}', lo, hi) for i in range(n)]
    elif dt == 'bool':
        vs = [E.bool(f'{nm}{i}') for i in range(n)]
    else:
        vs = [E.real(f'{nm}{i}', -100, 100) for i in range(n)]
    return vs


def nest(vs, shape):
    if not shape:
        return vs[0]
    k = len(vs) // shape[0] if shape[0] else 0
    return [nest(vs[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])] if len(shape) > 1 else list(vs)


def arr(E, dt, shape, vs):
    if 0 in shape:
        return E.array(np.zeros(tuple(shape), NPT[dt]), NPT[dt])
    return E.array(nest(vs, shape), NPT[dt])


def mkproto(E, dt, shape, vs, raw, name='w'):
    ox = onnx_of(E)
    if raw:
        return ox.helper.make_tensor(name, DT[np.dtype(NPT[dt])], list(shape), arr(E, dt, shape, vs).tobytes(), raw=True)
    a = arr(E, dt, shape, vs)
    return ox.helper.make_tensor(name, DT[np.dtype(NPT[dt])], list(shape), E.elems(a))


def check_array(E, a, dt, shape, vs, label):
    ref = arr(E, dt, shape, vs)
    E.check(np.dtype(a.dtype) == np.dtype(NPT[dt]), f'{label}: element type')
    E.check(list(a.shape) == list(shape), f'{label}: shape')
    E.observe(label, E.elems(a))
    E.check(E.same(E.elems(a), E.elems(ref)), f'{label}: values')


def h_load(E, dt, shape, raw):
    vs = values(E, dt, shape)
    p = mkproto(E, dt, shape, vs, raw)
    r = E.call(E.tensor.Tensor, p)
    if not r.ok:
        E.fail(f'loading raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    t = r.val
    check_array(E, t.numpy, dt, shape, vs, 'loaded')
    E.check(t.name == 'w', 'name')
    E.check(list(t.get_shape()) == list(shape), 'get_shape')
    E.check(t.type == E.tensor.STATIC_TENSOR, 'an initialiser is a constant')
    E.check(np.dtype(t.dtype) == np.dtype(NPT[dt]), 'dtype')
    E.check(t.get_elementsize() == np.dtype(NPT[dt]).itemsize, 'element size')
    if shape:
        E.check(t.get_memsize() == np.dtype(NPT[dt]).itemsize * prod(shape), 'memory size')
    check_array(E, t.get_numpy(), dt, shape, vs, 'get_numpy')
    r = E.call(t.make_tensor_proto)
    if not r.ok:
        E.fail(f'saving raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    q = r.val
    E.check(q.name == 'w' and q.data_type == DT[np.dtype(NPT[dt])] and list(q.dims) == list(shape), 'saved header')
    r = E.call(E.tensor.tensorproto2ndarray, q)
    if not r.ok:
        E.fail(f'reloading raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    check_array(E, r.val, dt, shape, vs, 'reloaded')
    if not E.sym:
        ref = onnx_of(E).numpy_helper.to_array(q)
        E.check(ref.dtype == NPT[dt] and ref.shape == tuple(shape) and ref.tobytes() == arr(E, dt, shape, vs).tobytes(), 'onnx reads the saved tensor back')


SPECIAL = {'f16': [0x7c00, 0xfc00, 0x7e00, 0xfe01, 0x8000, 0x0001, 0x7bff], 'f32': [0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x80000000, 1, 0x7f7fffff],
           'f64': [0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0xfff8 << 48) + 1, 1 << 63, 1, (0x7ff << 52) - 1]}


def h_bits(E, dt, shape, how, special):
    """floating point data is carried bit for bit: every pattern, NaNs, infinities, negative zeros and denormals included"""
    n = prod(shape) if shape else 1
    w = 8 * np.dtype(NPT[dt]).itemsize
    bits = [E.int(f'b{i}', 0, 2 ** w - 1) for i in range(n)]
    if special:
        for b in bits:
            E.assume(E.any(*[b == s for s in SPECIAL[dt]]))
    ox = onnx_of(E)
    ref = E.from_bits(bits, shape, NPT[dt])

    def equal(a, label):
        E.check(np.dtype(a.dtype) == np.dtype(NPT[dt]) and list(a.shape) == list(shape), f'{label}: type and shape')
        E.check(E.same(E.elems(a), E.elems(ref)) if E.sym else np.asarray(a).tobytes() == ref.tobytes(), f'{label}: every bit')
    if how == 'typed':
        p = ox.helper.make_tensor('w', DT[np.dtype(NPT[dt])], list(shape), [0.0] * n)
        del p.int32_data[:]
        p.int32_data.extend(bits)
    else:
        p = ox.helper.make_tensor('w', DT[np.dtype(NPT[dt])], list(shape), ref.tobytes(), raw=True)
    if how == 'attr':
        nd = ox.helper.make_node('Constant', [], ['y'], value=p)
        r = E.call(E.tensor.get_attribute_data, nd.attribute[0])
        E.check(r.ok, 'reading the attribute')
        return equal(r.val, 'attribute')
    r = E.call(E.tensor.Tensor, p)
    E.check(r.ok, 'loading')
    equal(r.val.numpy, 'loaded')
    equal(r.val.get_numpy(), 'get_numpy')
    if how == 'update':
        t = E.tensor.Tensor('v')
        t.update_proto(r.val.numpy)
        q = t.proto
    else:
        q = r.val.make_tensor_proto()
    if dt == 'f32':
        return              # stored as a list of numbers: the payload of a NaN is the protobuf library's business
    r = E.call(E.tensor.tensorproto2ndarray, q)
    E.check(r.ok, 'reading the saved tensor')
    equal(r.val, 'saved')


def h_update(E, dt, shape, how):
    """update_tensor / update_proto / create_initial_Tensor / create_dynamic_Tensor carry the array as it is"""
    vs = values(E, dt, shape)
    a = arr(E, dt, shape, vs)
    T = E.tensor
    if how == 'initial':
        t = T.create_initial_Tensor('w', a)
    elif how == 'dynamic':
        t = T.create_dynamic_Tensor('w', a)
    else:
        t = T.Tensor('w')
        getattr(t, how)(a)
    check_array(E, t.numpy, dt, shape, vs, how)
    E.check(list(t.get_shape()) == list(shape), f'{how}: shape')
    E.check(np.dtype(t.dtype) == np.dtype(NPT[dt]), f'{how}: dtype')
    E.check(t.type == (T.STATIC_TENSOR if how == 'initial' else T.DYNAMIC_TENSOR), f'{how}: kind')
    if how in ('initial', 'update_proto'):
        r = E.call(T.tensorproto2ndarray, t.proto)
        if not r.ok:
            E.fail(f'{how}: proto cannot be read: {str(r.exc)[:80]}')
        check_array(E, r.val, dt, shape, vs, how + ' proto')
    if how == 'dynamic':
        E.check(t.proto.type.tensor_type.elem_type == DT[np.dtype(NPT[dt])], 'dynamic: declared type')


def dim_of(E, d):
    if d.HasField('dim_value'):
        return d.dim_value
    if d.HasField('dim_param'):
        return d.dim_param
    return None


def h_valueinfo(E, dt, kinds):
    """declared inputs: known, named and unknown dimensions survive loading and saving"""
    ox = onnx_of(E)
    want = [E.int(f'd{i}', 0, 10 ** 6) if k == 'n' else (f'dim{i}' if k == 's' else None) for i, k in enumerate(kinds)]
    p = ox.helper.make_tensor_value_info('x', DT[np.dtype(NPT[dt])], want)
    r = E.call(E.tensor.Tensor, p)
    if not r.ok:
        E.fail(f'loading raises {type(r.exc).__name__}')
    t = r.val
    got = t.get_shape()
    E.check(len(got) == len(kinds), 'rank')
    for i, k in enumerate(kinds):
        if k == 'n':
            E.check(E.eq(got[i], want[i]), f'dimension {i}')
        elif k == 's':
            E.check(got[i] == want[i], f'name of dimension {i}')
        else:
            E.check(isinstance(got[i], int) and got[i] < 0, f'unknown dimension {i} is negative')
    E.check(t.type == E.tensor.DYNAMIC_TENSOR and np.dtype(t.dtype) == np.dtype(NPT[dt]), 'kind and dtype')
    r = E.call(t.make_value_proto)
    if not r.ok:
        E.fail(f'saving raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
    q = r.val
    E.check(q.name == 'x' and q.type.tensor_type.elem_type == DT[np.dtype(NPT[dt])], 'saved name and type')
    dims_ = [dim_of(E, d) for d in q.type.tensor_type.shape.dim]
    E.check(len(dims_) == len(want), 'saved rank')
    for a, b in zip(dims_, want):
        E.check(E.eq(a, b) if b is not None and a is not None else a is b, 'saved dimension')


def h_size(E, dt, rank):
    """bytes of a tensor without data"""
    s = dims(E, 'd', rank, 0, 10 ** 5)
    t = E.tensor.create_tensor('x', E.choice('k', [0, 1]), list(s), NPT[dt])
    E.check(E.eq(t.get_memsize(), prod(s) * np.dtype(NPT[dt]).itemsize), 'memory size')
    E.check(E.eq(E.tensor.volume(s), prod(s)), 'volume')
    u = list(E.ints('u', E.choice('r', [1, 2, 3]), 0, 10 ** 5))
    same = E.tensor.same_shape(s, u)
    E.check(E.eq(same, E.same(s, u)), 'same_shape')


def h_attr(E, dt, shape, raw):
    """tensor attributes of nodes (Constant.value) and integer, float and text attributes"""
    ox = onnx_of(E)
    vs = values(E, dt, shape)
    a = ox.helper.make_attribute('value', mkproto(E, dt, shape, vs, raw))
    r = E.call(E.tensor.get_attribute_data, a)
    if not r.ok:
        E.fail(f'reading a tensor attribute raises {type(r.exc).__name__}')
    check_array(E, r.val, dt, shape, vs, 'attribute')


def h_attr2(E):
    ox = onnx_of(E)
    g = E.tensor.get_attribute_data
    i, f = E.int('i', -2 ** 63, 2 ** 63 - 1), E.real('f', -100, 100)
    E.check(E.eq(g(ox.helper.make_attribute('a', i)), i), 'INT attribute')
    E.check(E.close(g(ox.helper.make_attribute('a', f)), f, 0 if E.sym else 1e-4), 'FLOAT attribute')
    n = E.choice('n', [1, 2, 3])
    v = E.ints('v', n, -2 ** 63, 2 ** 63 - 1)
    E.check(E.same(list(g(ox.helper.make_attribute('a', v))), v), 'INTS attribute')
    w = [E.real(f'w{k}', -100, 100) for k in range(n)]
    got = list(g(ox.helper.make_attribute('a', w)))
    E.check(len(got) == n and E.all(*[E.close(a, b, 0 if E.sym else 1e-4) for a, b in zip(got, w)]), 'FLOATS attribute')
    E.check(g(ox.helper.make_attribute('a', 'text')) == b'text', 'STRING attribute')
    texts = E.choice('texts', [['one'], ['Sigmoid', '', 'Tanh']])
    E.check(g(ox.helper.make_attribute('a', texts)) == [t.encode() for t in texts], 'STRINGS attribute')


def h_strings(E, shape):
    vals = [b'ab', b'c', b'longer text'][:prod(shape) if shape else 1]
    ox = onnx_of(E)
    p = ox.helper.make_tensor('w', 8, list(shape), vals)
    r = E.call(E.tensor.Tensor, p)
    if not r.ok:
        E.fail(f'loading text raises {type(r.exc).__name__}')
    E.check(list(r.val.get_shape()) == list(shape), 'shape of a text tensor')
    r = E.call(r.val.make_tensor_proto)
    if not r.ok:
        E.fail(f'saving text raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    E.check(r.val.data_type == 8 and list(r.val.dims) == list(shape) and [bytes(v) for v in r.val.string_data] == vals, 'text survives')


def obligations(tier):
    obs = []
    for dt in SPECIAL:
        for how in ('raw', 'attr', 'update') + (('typed',) if dt == 'f16' else ()):
            for s in ([], [1], [3], [2, 1]):
                for sp in (False, True):
                    obs.append(Ob(f'bits-{dt}-{how}-{s}-{"special" if sp else "any"}', h_bits, dict(dt=dt, shape=s, how=how, special=sp)))
    for dt in NPT:
        for s in SHAPES:
            for raw in (True, False):
                obs.append(Ob(f'load-{dt}-{s}-{"raw" if raw else "typed"}', h_load, dict(dt=dt, shape=s, raw=raw)))
        for how in ('initial', 'dynamic', 'update_tensor', 'update_proto'):
            obs.append(Ob(f'{how}-{dt}', h_update, dict(dt=dt, shape=[2, 2], how=how)))
        for s in ([], [2]):
            for raw in (True, False):
                obs.append(Ob(f'attr-{dt}-{s}-{raw}', h_attr, dict(dt=dt, shape=s, raw=raw)))
        for k in ('n', 'nn', 'ns', 'sn', 'nu', 'u', 'snu', 'nnnn'):
            obs.append(Ob(f'valueinfo-{dt}-{k}', h_valueinfo, dict(dt=dt, kinds=k)))
        for r in (1, 2, 4):
            obs.append(Ob(f'size-{dt}-{r}', h_size, dict(dt=dt, rank=r)))
    obs += [Ob('attr-scalars', h_attr2, {})] + [Ob(f'text-{s}', h_strings, dict(shape=s)) for s in ([], [1], [3])]
    return obs


BOUNDS = {'all': 'the twelve numeric and boolean element types at their full value range (floats -100..100, and every 32-bit and 16-bit pattern including NaN and infinities for float32/float16), raw and typed storage, seven shapes of rank 0-3 '
                 'including an empty one; declared dimensions 0..10^6, named or unknown, up to rank 4; three text tensors'}
OUTSIDE = 'bfloat16, 8-bit floats, 4-bit and complex types; external data files; NaN payloads of float32 data in typed storage'
ASSUMPTIONS = ['raw bytes are modelled as the array they encode', 'floating values idealised as reals; the bit patterns are compared on the replayed values']
