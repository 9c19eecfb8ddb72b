"""Stand-in for the `onnx` package inside the shadow modules: the same protobuf
messages and helper functions, but fields may hold symbolic values.  Everything
not listed here is the real onnx.  Agreement with the real package is checked by
replaying every explored path on it."""
import sys
import types
import numpy as np
import onnx as _onnx
from . import core, snp
from .core import SymInt, SymReal, SymRat, SymBool, Name, is_sym, Unmodelled

TP = _onnx.TensorProto
AP = _onnx.AttributeProto


class Msg:
    _fields = {}

    def __init__(self, **k):
        for f, d in self._fields.items():
            setattr(self, f, d() if callable(d) else d)
        for f, v in k.items():
            setattr(self, f, v)

    def HasField(self, f):
        return bool(getattr(self, f, None))

    def ClearField(self, f):
        d = self._fields[f]
        setattr(self, f, d() if callable(d) else d)

    def __deepcopy__(self, memo):
        import copy
        n = self.__class__.__new__(self.__class__)
        memo[id(self)] = n
        for k, v in self.__dict__.items():
            n.__dict__[k] = copy.deepcopy(v, memo)
        return n


class Dim:
    """TensorShapeProto.Dimension: a oneof of dim_value / dim_param"""

    def __init__(self, value=None, param=None):
        self._v, self._p = value, param

    @property
    def dim_value(self):
        return 0 if self._v is None else self._v

    @dim_value.setter
    def dim_value(self, v):
        if not (isinstance(v, (int, np.integer)) or isinstance(v, SymInt)):
            raise TypeError('bad argument type for dim_value')
        self._v, self._p = (v.py() if isinstance(v, SymInt) else int(v)), None

    @property
    def dim_param(self):
        return '' if self._p is None else self._p

    @dim_param.setter
    def dim_param(self, p):
        self._p, self._v = p, None

    def HasField(self, f):
        if f == 'dim_value':
            return self._v is not None
        if f == 'dim_param':
            return self._p is not None
        raise ValueError(f)

    def ClearField(self, f):
        if f == 'dim_value':
            self._v = None
        else:
            self._p = None


class _Shape(Msg):
    _fields = {'dim': list}


class _TType(Msg):
    _fields = {'elem_type': 0, 'shape': _Shape}
    _declared = False             # an empty shape: declared (rank 0) or absent

    def HasField(self, f):
        if f == 'shape':
            return self._declared or bool(self.shape.dim)
        return super().HasField(f)

    def ClearField(self, f):
        super().ClearField(f)
        if f == 'shape':
            self._declared = False


class _Type(Msg):
    _fields = {'tensor_type': _TType}


class ValueInfoProto(Msg):
    _fields = {'name': '', 'type': _Type}


class _TensorMeta(type):
    def __getattr__(cls, n):
        return getattr(TP, n)


class TensorProto(Msg, metaclass=_TensorMeta):
    _fields = {'name': '', 'dims': list, 'data_type': 0, 'raw_data': b'', 'float_data': list, 'int32_data': list, 'int64_data': list,
               'double_data': list, 'uint64_data': list, 'string_data': list}

    def __getattr__(self, n):
        return getattr(TP, n)


class _AttrMeta(type):
    def __getattr__(cls, n):
        return getattr(AP, n)


class AttributeProto(Msg, metaclass=_AttrMeta):
    _fields = {'name': '', 'type': 0, 'i': 0, 'f': 0.0, 's': b'', 't': None, 'g': None, 'ints': list, 'floats': list, 'strings': list,
               'ref_attr_name': ''}

    def __getattr__(self, n):
        return getattr(AP, n)


class NodeProto(Msg):
    _fields = {'name': '', 'op_type': '', 'domain': '', 'input': list, 'output': list, 'attribute': list, 'doc_string': ''}


class GraphProto(Msg):
    _fields = {'name': '', 'node': list, 'input': list, 'output': list, 'initializer': list, 'value_info': list, 'doc_string': ''}


class OperatorSetIdProto(Msg):
    _fields = {'domain': '', 'version': 0}


class ModelProto(Msg):
    _fields = {'graph': GraphProto, 'ir_version': 0, 'opset_import': list, 'producer_name': '', 'producer_version': '',
               'domain': '', 'model_version': 0, 'doc_string': '', 'metadata_props': list, 'functions': list}


class StringStringEntryProto(Msg):
    _fields = {'key': '', 'value': ''}


class FunctionProto(Msg):
    _fields = {'name': '', 'domain': '', 'input': list, 'output': list, 'node': list, 'opset_import': list, 'attribute': list, 'doc_string': ''}


def _isint(d):
    return (isinstance(d, SymInt)) or (isinstance(d, (int, np.integer)) and not isinstance(d, bool))


# ------------------------------------------------------------------ helper
helper = types.ModuleType('onnx.helper')


def make_tensor_value_info(name, elem_type, shape, doc_string='', shape_denotation=None):
    if elem_type is None:
        raise TypeError('bad argument type for built-in operation')
    v = ValueInfoProto(name=name)
    v.type.tensor_type.elem_type = elem_type
    if shape is not None:
        v.type.tensor_type._declared = True
        for d in shape:
            x = Dim()
            if d is None:
                pass
            elif isinstance(d, SymInt) and d.dt is None or isinstance(d, int) and not isinstance(d, np.generic):
                x.dim_value = d
            elif isinstance(d, str) or type(d).__name__ == 'SymStr':
                x.dim_param = d
            elif _isint(d):
                x.dim_value = d
            else:
                raise ValueError(f'Invalid item in shape: {d}. Needs to be of int or str.')
            v.type.tensor_type.shape.dim.append(x)
    return v


class SymBytes:
    """The bytes of an array with symbolic elements."""

    def __init__(self, elems, dtype):
        self.elems, self.dtype = list(elems), np.dtype(dtype)

    def __len__(self):
        return len(self.elems) * self.dtype.itemsize

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.dtype == o.dtype and len(self.elems) == len(o.elems) and bool(
                core.sand(*[a == b for a, b in zip(self.elems, o.elems)]))
        if isinstance(o, (bytes, bytearray)) and len(o) == len(self) and len(o):
            raise Unmodelled('comparing symbolic bytes')
        return isinstance(o, (bytes, bytearray)) and len(o) == len(self)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return len(self) > 0

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def _sym_eval(self, m):
        return np.array([core.eval_sym(x, m) for x in self.elems]).astype(self.dtype).tobytes()


_I32 = {TP.INT32, TP.INT16, TP.INT8, TP.UINT16, TP.UINT8, TP.BOOL}


def make_tensor(name, data_type, dims, vals, raw=False):
    if data_type is None:
        raise TypeError('bad argument type for built-in operation')
    if data_type == TP.STRING and raw:
        raise TypeError('Can not use raw_data to store string type.')
    dims = [d for d in dims]
    t = TensorProto(name=name, data_type=data_type, dims=dims)
    n = 1
    for d in dims:
        n = n * d
    npd = _onnx.helper.tensor_dtype_to_np_dtype(data_type)
    if raw:
        if len(vals) != n * npd.itemsize:
            raise ValueError('Raw data size does not match tensor\'s size')
        t.raw_data = vals
        return t
    if isinstance(vals, snp.ndarray):
        vals = snp_list(vals)
    vals = list(vals)
    if len(vals) != n:
        raise ValueError('Number of values does not match tensor\'s size')
    if data_type == TP.STRING:
        t.string_data = [v.encode() if isinstance(v, str) else v for v in vals]
    elif data_type == TP.FLOAT:
        t.float_data = [_tofloat(v) for v in vals]
    elif data_type == TP.DOUBLE:
        t.double_data = [_tofloat(v) for v in vals]
    elif data_type == TP.INT64:
        t.int64_data = [_toint(v) for v in vals]
    elif data_type in _I32:
        t.int32_data = [_toint(v) for v in vals]
    elif data_type == TP.FLOAT16:
        if any(is_sym(v) for v in vals):
            t.int32_data = [HalfBits(v) for v in vals]
        else:
            t.int32_data = np.array(vals, np.float16).view(np.uint16).tolist()
    elif data_type in (TP.UINT32, TP.UINT64):
        t.uint64_data = [_toint(v) for v in vals]
    else:
        raise Unmodelled(f'make_tensor of type {data_type}')
    return t


class HalfBits:
    """the 16 bits of a symbolic half-precision value"""

    def __init__(self, v):
        self.v = v


def _tofloat(v):
    if isinstance(v, SymInt):
        return SymReal(core.z3.ToReal(v.e))
    if isinstance(v, SymReal):
        return SymReal(v.e)
    return v if is_sym(v) else float(v)


def _toint(v):
    if isinstance(v, SymBool):
        return v.i()
    if isinstance(v, SymInt):
        return v.py()
    return v if is_sym(v) else int(v)


def snp_list(a):
    a._materialise()
    return [x for x in a.a.reshape(-1)] if a.a.dtype == object else a.a.reshape(-1).tolist()


def make_attribute(key, value, doc_string=None, attr_type=None):
    a = AttributeProto(name=key)
    if isinstance(value, bool) or isinstance(value, SymBool):
        a.i, a.type = _toint(value), AP.INT
    elif _isint(value):
        a.i, a.type = (value.py() if isinstance(value, SymInt) else int(value)), AP.INT
    elif isinstance(value, (float, np.floating, SymReal, SymRat)):
        a.f, a.type = value, AP.FLOAT
    elif isinstance(value, str):
        a.s, a.type = value.encode(), AP.STRING
    elif isinstance(value, bytes):
        a.s, a.type = value, AP.STRING
    elif isinstance(value, TensorProto):
        a.t, a.type = value, AP.TENSOR
    elif isinstance(value, GraphProto):
        a.g, a.type = value, AP.GRAPH
    elif isinstance(value, (list, tuple, snp.ndarray)):
        vs = list(value)
        if not vs:
            raise ValueError(f'Could not infer attribute `{key}` type from empty iterator')
        if all(_isint(v) for v in vs):
            a.ints, a.type = [v.py() if isinstance(v, SymInt) else int(v) for v in vs], AP.INTS
        elif all(_isint(v) or isinstance(v, (float, np.floating, SymReal, SymRat)) for v in vs):
            a.floats, a.type = [_tofloat(v) for v in vs], AP.FLOATS
        elif all(isinstance(v, (str, bytes)) for v in vs):
            a.strings, a.type = [v.encode() if isinstance(v, str) else v for v in vs], AP.STRINGS
        else:
            raise ValueError('Could not infer the attribute type from the elements of the passed Iterable value.')
    else:
        raise TypeError(f"'{value}' is not an accepted attribute value.")
    return a


def get_attribute_value(a):
    if a.ref_attr_name:
        raise ValueError('Cannot get value of reference attribute')
    if a.type == AP.FLOAT:
        return a.f
    if a.type == AP.INT:
        return a.i
    if a.type == AP.STRING:
        return a.s
    if a.type == AP.TENSOR:
        return a.t
    if a.type == AP.GRAPH:
        return a.g
    if a.type == AP.FLOATS:
        return list(a.floats)
    if a.type == AP.INTS:
        return list(a.ints)
    if a.type == AP.STRINGS:
        return list(a.strings)
    raise ValueError(f'Unsupported ONNX attribute: {a.type}')


def make_node(op_type, inputs, outputs, name=None, doc_string=None, domain=None, overload=None, **kwargs):
    n = NodeProto(op_type=op_type, input=list(inputs), output=list(outputs))
    if name:
        n.name = name
    if doc_string:
        n.doc_string = doc_string
    if domain is not None:
        n.domain = domain
    for k, v in sorted(kwargs.items()):
        if v is None:
            continue
        n.attribute.append(make_attribute(k, v))
    return n


def make_graph(nodes, name, inputs, outputs, initializer=None, doc_string=None, value_info=None, sparse_initializer=None):
    return GraphProto(name=name, node=list(nodes), input=list(inputs), output=list(outputs), initializer=list(initializer or []),
                      value_info=list(value_info or []))


def make_model(graph, **kw):
    m = ModelProto(graph=graph, ir_version=_onnx.IR_VERSION, opset_import=[OperatorSetIdProto(version=_onnx.defs.onnx_opset_version())])
    for k, v in kw.items():
        setattr(m, k, v)
    return m


for f in (make_tensor_value_info, make_tensor, make_attribute, get_attribute_value, make_node, make_graph, make_model):
    setattr(helper, f.__name__, f)
helper.__getattr__ = lambda n: getattr(_onnx.helper, n)

FILES = {}          # what onnx.save_model wrote, by file name (cleared for every path by the harness)


def save_model(model, f, *a, **k):
    import copy
    FILES[str(f)] = copy.deepcopy(model)


def load_model(f, *a, **k):
    import copy
    if str(f) in FILES:
        return copy.deepcopy(FILES[str(f)])
    raise FileNotFoundError(f)


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_onnx, n)


module = _Mod('onnx')
for k, v in dict(helper=helper, ValueInfoProto=ValueInfoProto, TensorProto=TensorProto, AttributeProto=AttributeProto, NodeProto=NodeProto,
                 GraphProto=GraphProto, ModelProto=ModelProto, FunctionProto=FunctionProto, StringStringEntryProto=StringStringEntryProto, OperatorSetIdProto=OperatorSetIdProto, save_model=save_model, save=save_model,
                 load_model=load_model, load=load_model).items():
    setattr(module, k, v)
