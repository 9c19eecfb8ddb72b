"""Builds ONNX graphs for the graph-level harnesses: real protobufs when replaying,
stand-in messages (symex/fonnx.py) with symbolic fields when executed symbolically."""
import numpy as np
import onnx as _onnx
from symex import fonnx
from .lib import *

DT = {np.dtype(np.float32): 1, np.dtype(np.uint8): 2, np.dtype(np.int8): 3, np.dtype(np.uint16): 4, np.dtype(np.int16): 5, np.dtype(np.int32): 6,
      np.dtype(np.int64): 7, np.dtype(np.bool_): 9, np.dtype(np.float16): 10, np.dtype(np.float64): 11}


def onnx_of(E):
    return fonnx.module if E.sym else _onnx


def shape_list(E, a):
    return list(a.shape)


def init(E, name, a, raw=None):
    """TensorProto of an array (E.array) - raw bytes by default, as exporters write them"""
    ox = onnx_of(E)
    dt = DT[np.dtype(a.dtype)]
    if raw is None:
        raw = True
    if raw:
        return ox.helper.make_tensor(name, dt, list(a.shape), a.tobytes(), raw=True)
    return ox.helper.make_tensor(name, dt, list(a.shape), E.elems(a))


def weight(E, name, shape, dtype=np.float32):
    """a weight of concrete shape filled with zeros"""
    return init(E, name, E.array(np.zeros(tuple(shape), dtype), dtype))


def const(E, v, dtype=np.int64):
    return E.array(v, dtype)


def proto(E, nodes, inputs, outputs, inits=(), infos=()):
    """nodes: (op, name, [in], [out], {attrs}); inputs/outputs/infos: (name, shape or None, dtype); inits: (name, array) or TensorProto"""
    ox = onnx_of(E)
    h = ox.helper
    ns = []
    for nd in nodes:
        if not isinstance(nd, tuple):
            ns.append(nd)
            continue
        op, name, i, o, at = nd
        at = {k: (init(E, 'c', v) if hasattr(v, 'dtype') and hasattr(v, 'shape') else v) for k, v in at.items()}
        ns.append(h.make_node(op, list(i), list(o), name=name, **at))
    vi = lambda t: h.make_tensor_value_info(t[0], DT[np.dtype(t[2] if len(t) > 2 else np.float32)], t[1])
    ii = [init(E, x[0], x[1], *x[2:]) if isinstance(x, tuple) else x for x in inits]
    return h.make_graph(ns, 'g', [vi(t) for t in inputs], [vi(t) for t in outputs], initializer=ii, value_info=[vi(t) for t in infos])


def model(E, *a, **k):
    return onnx_of(E).helper.make_model(proto(E, *a, **k))


def mkgraph(E, nodes, inputs, outputs, inits=(), infos=(), **cfg):
    p = proto(E, nodes, inputs, outputs, inits, infos)
    return E.graph.Graph(p, E.m('utils').ModelConfig(dict(cfg)))


def out(op, name, ins, outs, **attrs):
    return (op, name, ins, outs, attrs)


def tshape(g, name):
    return g.tensormap[name].get_shape()


def check_tensors(E, g, want, label):
    """want: name -> shape"""
    for n, s in want.items():
        if n not in g.tensormap:
            E.check(False, f'{label}: tensor {n} is gone')
            continue
        got = tshape(g, n)
        E.observe(f'{label}:{n}', got)
        E.check(E.same(got, s), f'{label}: shape of {n}')
