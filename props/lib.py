"""Reference semantics (ONNX operator specification) shared by the harnesses.
Everything here is polymorphic: it runs on solver terms and on plain numbers."""
import numpy as np
from symex.runner import Ob

MAXD = 100000


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def broadcast_spec(E, shapes):
    """-> (compatible, shape) of ONNX multidirectional broadcasting, without branching"""
    n = max(len(s) for s in shapes)
    pad = [[1] * (n - len(s)) + list(s) for s in shapes]
    ok, out = True, []
    for dims in zip(*pad):
        o = dims[0]
        for d in dims[1:]:
            ok = E.all(ok, E.any(o == d, o == 1, d == 1))
            o = E.ite(o == 1, d, o)
        out.append(o)
    return ok, out


def dims(E, name, rank, lo=1, hi=64):
    return E.ints(name, rank, lo, hi)


def plain(E, s):
    """a reported shape is a list/tuple of integers (never text, None or fractions)"""
    return all(not isinstance(d, (str, float, bytes)) and d is not None for d in s)


def check_shapes(E, outs, wants, label):
    for i, (o, w) in enumerate(zip(outs, wants)):
        if w is None:
            continue
        got = o.get_shape()
        E.observe(f'shape{i}', got)
        E.check(E.same(got, w), f'{label}: shape of output {i}')


def dtype_is(t, dt):
    return np.dtype(t.dtype) == np.dtype(dt)
