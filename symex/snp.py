"""Shadow numpy: arrays whose elements and/or dimensions may be symbolic.

Fully concrete calls are delegated to the real numpy.  Symbolic calls follow
numpy's documented contract (listed in DESIGN.md); anything not modelled is
executed by the real numpy after pinning the symbolic values to the current
model, which is recorded and makes the path count as incomplete."""
import builtins
import math as _math
import types
from fractions import Fraction
import numpy as np
from . import core
from .core import (Sym, SymBool, SymInt, SymRat, SymReal, is_sym, ite, sand, sor, snot, eng, cast_elem, Unmodelled,
                   floordiv, pymod, strip)


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def _scalar_out(x, dt):
    """An element as it leaves an array: a numpy scalar."""
    if np.dtype(dt).kind == 'f':
        if isinstance(x, SymInt):
            return SymReal(core.z3.ToReal(x.e), np.dtype(dt))
        if isinstance(x, SymRat) and not is_sym(x.d):
            n = core.z3.ToReal(x.n.e) if is_sym(x.n) else core.z3real(x.n)
            return SymReal(n / core.z3real(x.d), np.dtype(dt))
    if isinstance(x, SymInt):
        return x.npscalar(dt)
    if isinstance(x, (SymReal,)):
        return SymReal(x.e, dt)
    if is_sym(x):
        return x
    if isinstance(x, np.generic):
        return x
    try:
        return np.dtype(dt).type(x)
    except (TypeError, ValueError):
        return x


def _has_sym(a):
    return a.dtype == object and builtins.any(is_sym(v) for v in a.reshape(-1))


class ndarray:
    __array_ufunc__ = None
    __slots__ = ('a', '_shape', 'dtype', 'fv', '__weakref__')

    def __init__(self, a=None, dtype=None, shape=None, fill=None):
        if a is not None:
            if a.dtype == object and dtype is not None and np.dtype(dtype) != object:
                if not _has_sym(a):
                    try:
                        a = a.astype(dtype)
                    except (TypeError, ValueError, OverflowError):
                        pass
            self.a = a
            self._shape = None
            self.dtype = np.dtype(dtype) if dtype is not None else a.dtype
        else:
            self.a = None
            self._shape = tuple(strip(s) for s in shape)
            self.dtype = np.dtype(dtype)
        self.fv = fill

    # ---- basics
    @property
    def shape(self):
        return self.a.shape if self.a is not None else self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.a, self._shape = r.a, r._shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return _prod(self.shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return transpose(self)

    @property
    def opaque(self):
        return self.a is None

    @property
    def symbolic(self):
        return self.a is None or _has_sym(self.a)

    def conc(self):
        """The real numpy array (pins symbolic content)."""
        if self.a is None:
            sh = tuple(int(eng().pin(s)) if is_sym(s) else int(s) for s in self._shape)
            return np.full(sh, 0 if self.fv is None else self.fv, dtype=self.dtype)
        if self.a.dtype == object and self.dtype != object:
            f = np.array([eng().pin(v) if is_sym(v) else v for v in self.a.reshape(-1)], dtype=object)
            return f.reshape(self.a.shape).astype(self.dtype)
        return self.a

    def ob(self):
        """object view of the contents"""
        if self.a is None:
            raise Unmodelled('element access of a shape-only array')
        if self.a.dtype == object:
            return self.a
        o = np.empty(self.a.shape, dtype=object)
        fl = o.reshape(-1)
        for i, v in enumerate(self.a.reshape(-1).tolist()):
            fl[i] = v
        return fl.reshape(self.a.shape)

    def _materialise(self):
        if self.a is None:
            if self.fv is None:
                eng().stats.pinned += 1
                eng().stats.exhausted = False
            sh = tuple(int(s) for s in self._shape)    # forks over the feasible shapes
            self.a = np.full(sh, 0 if self.fv is None else self.fv, dtype=self.dtype)

    def __len__(self):
        if len(self.shape) == 0:
            raise TypeError('len() of unsized object')
        return int(self.shape[0])

    def __iter__(self):
        self._materialise()
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.a.shape[0]):
            yield self[i]

    def __getitem__(self, k):
        k = _norm_index(k)
        if self.a is None:
            return _opaque_getitem(self, k)
        r = self.a[k]
        if isinstance(r, np.ndarray) and not (self.a.dtype == object and not isinstance(r, np.ndarray)):
            return ndarray(r, self.dtype)
        return _scalar_out(r, self.dtype)

    def __setitem__(self, k, v):
        self._materialise()
        k = _norm_index(k)
        if isinstance(v, ndarray):
            vs = v.symbolic
            v = v.ob() if (vs or self.a.dtype == object) else v.conc()
            if vs and v.ndim == 0:
                v = v[()]
        elif isinstance(v, (list, tuple)):
            v = array(v)
            v = v.ob() if (v.symbolic or self.a.dtype == object) else v.conc()
        sym = is_sym(v) or (isinstance(v, np.ndarray) and v.dtype == object)
        if sym and self.a.dtype != object:
            base = self.ob()
            if self.a.flags.writeable is False:
                raise ValueError('assignment destination is read-only')
            self.a = base
        if self.a.dtype == object:
            if isinstance(v, np.ndarray):
                v = np.frompyfunc(lambda x: cast_elem(x, self.dtype), 1, 1)(v)
            else:
                v = cast_elem(v, self.dtype)
        self.a[k] = v

    def __bool__(self):
        if self.a is not None and self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a is None:
            self._materialise()
            return bool(self)
        if self.a.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.dtype.kind not in 'iu' or self.ndim != 0:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def item(self, *a):
        self._materialise()
        if a:
            v = self.a.reshape(-1)[a[0]] if len(a) == 1 else self.a[a]
        else:
            if self.a.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            v = self.a.reshape(-1)[0]
        return v.item() if isinstance(v, np.generic) else v

    def tolist(self):
        self._materialise()
        return self.a.tolist()

    def tobytes(self, order='C'):
        if self.a is not None and self.symbolic:
            from .fonnx import SymBytes
            return SymBytes(list(self.a.reshape(-1)), self.dtype)
        return self.conc().tobytes()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order='C'):
        if self.a is None:
            return ndarray(None, self.dtype, self._shape, self.fv)
        return ndarray(self.a.copy(), self.dtype)

    def astype(self, dt, copy=True):
        dt = np.dtype(dt)
        if self.a is None:
            return ndarray(None, dt, self._shape, self.fv)
        if not self.symbolic:
            return ndarray(self.conc().astype(dt))
        r = np.empty(self.a.shape, object)
        r[...] = np.frompyfunc(lambda x: cast_elem(x, dt), 1, 1)(self.a)
        return ndarray(r, dt)

    def view(self, dt=None):
        return ndarray(self.conc().view(dt)) if dt is not None else self

    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (list, tuple, ndarray)):
            s = tuple(s[0])
        s = [strip(x.item() if isinstance(x, ndarray) else x) for x in s]
        if self.a is not None and not builtins.any(is_sym(x) for x in s):
            return ndarray(self.a.reshape(tuple(int(x) for x in s)), self.dtype)
        return _sym_reshape(self, s)

    def flatten(self, order='C'):
        return self.reshape(-1).copy()

    def ravel(self, order='C'):
        return self.reshape(-1)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (list, tuple))):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        return swapaxes(self, a, b)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def sum(self, axis=None, keepdims=False, dtype=None):
        return sum(self, axis, keepdims=keepdims)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, ddof=0, keepdims=False):
        return var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, ddof=0, keepdims=False):
        return std(self, axis, ddof=ddof, keepdims=keepdims)

    def prod(self, axis=None, keepdims=False):
        return prod(self, axis, keepdims=keepdims)

    def max(self, axis=None, keepdims=False):
        return maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, keepdims=False):
        return minimum.reduce(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, keepdims=False):
        return logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, keepdims=False):
        return logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def clip(self, lo=None, hi=None):
        return clip(self, lo, hi)

    def round(self, decimals=0):
        return round(self, decimals)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    @property
    def flat(self):
        return iter(self.reshape(-1))

    @property
    def real(self):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        m = getattr(np.ndarray, name)       # AttributeError when numpy has no such thing
        if callable(m):
            return lambda *a, **k: wrap(getattr(self.conc(), name)(*_conc(a), **_conc(k)))
        return wrap(getattr(self.conc(), name))

    def _sym_eval(self, m):
        if self.a is None:
            return {'shape': core.eval_sym(list(self._shape), m)}
        return core.eval_sym(self.a.tolist(), m)

    def __repr__(self):
        return f'<symarray {self.dtype} {len(self.shape)}d>'

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def _fill_method(self, v):
    if isinstance(v, ndarray):
        v = v.item()
    if self.a is None:
        self.fv = None if is_sym(v) else (v.item() if isinstance(v, np.generic) else v)
        return
    if is_sym(v) or self.a.dtype == object:
        self.a = self.ob()
        self.a[...] = cast_elem(v, self.dtype)
    else:
        self.a.fill(v)


ndarray.fill = _fill_method


# ---- index normalisation
def _norm_index(k):
    if isinstance(k, ndarray):
        if k.dtype.kind == 'b':
            return np.array([bool(v) for v in k.ob().reshape(-1)], dtype=bool).reshape(k.shape)
        return np.array([int(v) for v in k.ob().reshape(-1)], dtype=np.int64).reshape(k.shape)
    if isinstance(k, tuple):
        return tuple(_norm_index(x) for x in k)
    if isinstance(k, list):
        return [_norm_index(x) for x in k]
    if isinstance(k, slice):
        return k
    return k


def sym_slice_len(s, dim):
    """length of range(dim)[s] with symbolic bounds (Python slice semantics), no fork except on the step sign"""
    step = 1 if s.step is None else strip(s.step)
    if is_sym(step):
        step = int(step)
    if step == 0:
        raise ValueError('slice step cannot be zero')

    def norm(v, lo, hi):
        v = strip(v)
        v = ite(v < 0, v + dim, v) if is_sym(v < 0) else (v + dim if v < 0 else v)
        return smax(lo, smin(v, hi))
    if step > 0:
        st = 0 if s.start is None else norm(s.start, 0, dim)
        en = dim if s.stop is None else norm(s.stop, 0, dim)
        span = en - st
    else:
        st = dim - 1 if s.start is None else norm(s.start, -1, dim - 1)
        en = -1 if s.stop is None else norm(s.stop, -1, dim - 1)
        span = st - en
    a = builtins.abs(step)
    return smax(0, (span + a - 1) // a)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return builtins.max(a, b)
    c = a >= b
    return ite(c, a, b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return builtins.min(a, b)
    c = a <= b
    return ite(c, a, b)


def _opaque_getitem(x, k):
    if not isinstance(k, tuple):
        k = (k,)
    if not builtins.all(isinstance(v, (slice, int, SymInt, np.integer)) or v is None or v is Ellipsis for v in k):
        x = ndarray(None, x.dtype, x._shape, x.fv)
        x._materialise()
        return x[k]
    n_real = builtins.sum(1 for v in k if v is not None and v is not Ellipsis)
    if Ellipsis in [v for v in k if v is Ellipsis]:
        i = [v is Ellipsis for v in k].index(True)
        k = k[:i] + (slice(None),) * (len(x._shape) - n_real) + k[i + 1:]
    else:
        k = k + (slice(None),) * (len(x._shape) - n_real)
    out = []
    d = 0
    for v in k:
        if v is None:
            out.append(1)
            continue
        dim = x._shape[d]
        d += 1
        if isinstance(v, slice):
            if v.start is None and v.stop is None and v.step is None:
                out.append(dim)
            else:
                out.append(sym_slice_len(v, dim))
        else:
            if bool(sor(v >= dim, v < -dim)):
                raise IndexError('index out of bounds')
    if not out:
        return _scalar_out(0 if x.fv is None else x.fv, x.dtype)
    return mkopaque(out, x.dtype, x.fv)


def mkopaque(shape, dtype, fill=None):
    shape = tuple(strip(s) for s in shape)
    if not builtins.any(is_sym(s) for s in shape) and fill is not None:
        return ndarray(np.full(tuple(int(s) for s in shape), fill, dtype=dtype))
    return ndarray(None, dtype, shape, fill)


def _sym_reshape(x, s):
    neg = [i for i, v in enumerate(s) if bool(v == -1)]
    for i, v in enumerate(s):
        if i not in neg and bool(v < 0):
            raise ValueError('negative dimensions not allowed')
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    total = _prod(x.shape)
    if neg:
        rest = _prod([v for i, v in enumerate(s) if i not in neg])
        if bool(rest == 0):
            raise ValueError('cannot reshape array')
        # cancel syntactically equal factors so that the quotient stays simple
        a, b = list(x.shape), [v for i, v in enumerate(s) if i not in neg]
        for v in list(b):
            for j, w in enumerate(a):
                if core.same(v, w):
                    a.pop(j)
                    b.remove(v)
                    break
        q = _prod(a)
        rb = _prod(b)
        if not (not is_sym(rb) and rb == 1):
            if bool(q % rb != 0):
                raise ValueError('cannot reshape array')
            q = q // rb
        s = list(s)
        s[neg[0]] = q
    else:
        if bool(_prod(s) != total):
            raise ValueError('cannot reshape array')
    if x.a is not None:
        return ndarray(x.a.reshape(tuple(int(v) for v in s)), x.dtype)
    return mkopaque(s, x.dtype, x.fv)


# ---- conversions
def wrap(v):
    if isinstance(v, np.ndarray):
        return ndarray(v)
    if isinstance(v, list):
        return [wrap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(wrap(x) for x in v)
    return v


def _conc(v):
    if isinstance(v, ndarray):
        return v.conc()
    if isinstance(v, Sym):
        return eng().pin(v)
    if isinstance(v, tuple):
        return tuple(_conc(x) for x in v)
    if isinstance(v, list):
        return [_conc(x) for x in v]
    if isinstance(v, dict):
        return {k: _conc(x) for k, x in v.items()}
    if isinstance(v, slice):
        return slice(_conc(v.start), _conc(v.stop), _conc(v.step))
    return v


def _anysym(v):
    if isinstance(v, ndarray):
        return v.symbolic
    if isinstance(v, Sym):
        return True
    if isinstance(v, (list, tuple)):
        return builtins.any(_anysym(x) for x in v)
    if isinstance(v, dict):
        return builtins.any(_anysym(x) for x in v.values())
    return False


def elem_dtype(x):
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (bool, SymBool)):
        return np.dtype(bool)
    if isinstance(x, SymInt):
        return x.dt if x.dt is not None else np.dtype(np.int64)
    if isinstance(x, int):
        return np.dtype(np.int64)
    if isinstance(x, SymReal) and x.dt is not None:
        return np.dtype(x.dt)
    return np.dtype(np.float64)


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, ndarray):
        r = x.copy()
        return r.astype(dtype) if dtype is not None else r
    if not _anysym(x):
        return ndarray(np.array(_conc(x), dtype=dtype))
    if is_sym(x):
        o = np.empty((), dtype=object)
        dt = np.dtype(dtype) if dtype is not None else elem_dtype(x)
        o[()] = cast_elem(x, dt)
        return ndarray(o, dt)
    x = _tolists(x)
    shp = []
    y = x
    while isinstance(y, list):
        shp.append(len(y))
        y = y[0] if y else None
    flat = []

    def rec(v, d):
        if d == len(shp):
            if isinstance(v, list):
                raise ValueError('inhomogeneous shape')
            flat.append(v)
            return
        if not isinstance(v, list) or len(v) != shp[d]:
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        for e in v:
            rec(e, d + 1)
    rec(x, 0)
    dt = np.dtype(dtype) if dtype is not None else np.result_type(*[elem_dtype(v) for v in flat])
    o = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        o[i] = cast_elem(strip(v) if isinstance(v, (SymInt, np.integer)) else (v.item() if isinstance(v, np.generic) else v), dt)
    return ndarray(o.reshape(shp), dt)


def _tolists(x):
    if isinstance(x, ndarray):
        return x.tolist()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_tolists(v) for v in x]
    return x


def asarray(x, dtype=None):
    if isinstance(x, ndarray) and (dtype is None or np.dtype(dtype) == x.dtype):
        return x
    return array(x, dtype)


def _shape_arg(s):
    if isinstance(s, ndarray):
        s._materialise()
        s = [s.item()] if s.ndim == 0 else s.tolist()
    elif isinstance(s, (int, SymInt, np.integer)):
        s = [s]
    out = []
    for v in s:
        v = strip(v.item() if isinstance(v, ndarray) else v)
        if isinstance(v, SymInt):
            if bool(v < 0):
                raise ValueError('negative dimensions are not allowed')
        elif isinstance(v, (SymRat, SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(v)
    return out


def full(shape, fill_value, dtype=None):
    s = _shape_arg(shape)
    if isinstance(fill_value, ndarray):
        fill_value = fill_value.item()
    if dtype is None:
        dtype = elem_dtype(fill_value)
    if builtins.any(is_sym(v) for v in s):
        return ndarray(None, dtype, s, None if is_sym(fill_value) else fill_value)
    s = tuple(int(v) for v in s)
    if is_sym(fill_value):
        o = np.empty(s, dtype=object)
        o[...] = cast_elem(fill_value, np.dtype(dtype))
        return ndarray(o, dtype)
    return ndarray(np.full(s, fill_value, dtype=dtype))


def zeros(shape, dtype=float):
    return full(shape, 0, dtype)


def ones(shape, dtype=float):
    return full(shape, 1, dtype)


def empty(shape, dtype=float):
    return full(shape, 0, dtype)


def zeros_like(x, dtype=None):
    x = asarray(x)
    return full(x.shape, 0, dtype or x.dtype)


def ones_like(x, dtype=None):
    x = asarray(x)
    return full(x.shape, 1, dtype or x.dtype)


def full_like(x, v, dtype=None):
    x = asarray(x)
    return full(x.shape, v, dtype or x.dtype)


empty_like = zeros_like


# ---- broadcasting of symbolic shapes (numpy's rule)
def sym_broadcast(shapes):
    n = builtins.max(len(s) for s in shapes)
    out = []
    for i in range(n):
        dims = []
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                dims.append(s[j])
        r = 1
        for d in dims:
            if not is_sym(d) and d == 1:
                continue
            if not is_sym(r) and r == 1:
                r = d
                continue
            if core.same(r, d):
                continue
            if bool(r == d):
                continue
            if bool(r == 1):
                r = d
                continue
            if bool(d == 1):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(r)
    return out


# ---- elementwise functions
def _zdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if bool(a == 0):
            return float('nan')
        return float('inf') if bool(a > 0) else float('-inf')


def _floor_div(a, b):
    try:
        if isinstance(a, (SymReal, SymRat, float)) or isinstance(b, (SymReal, SymRat, float)):
            return floor_e(_zdiv(a, b))
        return a // b if not is_sym(b) or is_sym(a) else floordiv(a, b)
    except ZeroDivisionError:
        return 0


def _mod(a, b):
    try:
        return pymod(a, b) if (is_sym(a) or is_sym(b)) else a % b
    except ZeroDivisionError:
        return 0


def _fmod(a, b):
    # C remainder: sign of the dividend
    aa, bb = builtins.abs(a), builtins.abs(b)
    r = _mod(aa, bb)
    c = a < 0
    return ite(c, -r, r) if is_sym(c) else (-r if c else r)


def floor_e(x):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, float):
        return _math.floor(x) if _math.isfinite(x) else x
    return SymRat.lift(x.__floor__())


def ceil_e(x):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, float):
        return _math.ceil(x) if _math.isfinite(x) else x
    return SymRat.lift(x.__ceil__())


def round_e(x):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, float):
        return float(builtins.round(x)) if _math.isfinite(x) else x
    return SymRat.lift(x.__round__())


def trunc_e(x):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, float):
        return float(_math.trunc(x))
    return SymRat.lift(x.trunc())


def sign_e(x):
    p, n = x > 0, x < 0
    return ite(p, 1, ite(n, -1, 0)) if is_sym(x) else (1 if p else -1 if n else 0)


def _truth(x):
    if isinstance(x, SymBool):
        return x
    if is_sym(x):
        return x != 0
    return bool(x)


def _pow(a, b):
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        b = int(b)
    if isinstance(b, (int, np.integer)) and 0 <= int(b) <= 8:
        return a ** int(b)
    if is_sym(b) and isinstance(b, SymInt):
        return a ** int(b)
    raise Unmodelled('power')


def uf(name, a):
    """a transcendental function as an uninterpreted one (with its sign); concrete arguments are evaluated"""
    if not is_sym(a):
        return getattr(np, name)(a).item()
    r = core.z3.Function("uf_" + name, core.z3.RealSort(), core.z3.RealSort())(core.z3real(a))
    if name in ('exp', 'exp2', 'cosh'):
        eng().assume(core.SymBool(r > 0))
    if name == 'sqrt':
        eng().assume(core.SymBool(r >= 0))
    return core.SymReal(r)


class Ufunc:
    def __init__(self, name, fn=None, commut=None, identity=None):
        self.name = name
        self.__name__ = name
        self.np = getattr(np, name)
        self.fn = fn
        self.identity = identity

    def out_dtype(self, args):
        dummies = []
        for a in args:
            if isinstance(a, ndarray):
                dummies.append(np.ones((1,) * len(a.shape), dtype=a.dtype))
            elif isinstance(a, SymInt):
                dummies.append(a.dt.type(1) if a.dt is not None else 1)
            elif isinstance(a, SymBool):
                dummies.append(True)
            elif isinstance(a, SymReal):
                dummies.append(np.dtype(a.dt).type(1) if a.dt is not None else 1.0)
            elif isinstance(a, SymRat):
                dummies.append(1.0)
            else:
                dummies.append(a)
        with np.errstate(all='ignore'):
            return np.asarray(self.np(*dummies)).dtype

    def __call__(self, *args, out=None, dtype=None, where=True, casting=None):
        if where is not True:
            raise Unmodelled(f'{self.name}(where=)')
        if out is None and len(args) > self.np.nin:
            args, out = args[:self.np.nin], args[self.np.nin]
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            r = asarray(self(*args, dtype=dtype))
            if not np.can_cast(r.dtype, out.dtype, 'same_kind' if casting is None else casting):
                raise TypeError(f"Cannot cast ufunc '{self.name}' output from {r.dtype!r} to {out.dtype!r}")
            return _into(out, r)
        args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
        if not builtins.any(_anysym(a) for a in args):
            r = wrap(self.np(*[_conc(a) for a in args]))
            return r if dtype is None else asarray(r).astype(dtype)
        dt = np.dtype(dtype) if dtype is not None else self.out_dtype(args)
        if builtins.any(isinstance(a, ndarray) and a.opaque for a in args):
            shp = sym_broadcast([a.shape if isinstance(a, ndarray) else () for a in args])
            return mkopaque(shp, dt, None)
        if self.fn is None:
            r = wrap(self.np(*[_conc(a) for a in args]))
            return r
        obs = [a.ob() if isinstance(a, ndarray) else a for a in args]
        scalar = not builtins.any(isinstance(a, ndarray) for a in args)
        boxed = []
        for o in obs:
            if not isinstance(o, np.ndarray):
                b = np.empty((), dtype=object)
                b[()] = o.item() if isinstance(o, np.generic) else (o.py() if isinstance(o, SymInt) else o)
                o = b
            boxed.append(o)
        try:
            r = np.frompyfunc(lambda *e: cast_elem(self.fn(*e), dt), len(boxed), 1)(*boxed)
        except Unmodelled:
            return wrap(self.np(*[_conc(a) for a in args]))
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and scalar:
                return _scalar_out(r[()], dt)
            if r.ndim == 0:
                return _scalar_out(r[()], dt)
            return ndarray(r, dt)
        return _scalar_out(r, dt)

    def reduce(self, x, axis=0, dtype=None, keepdims=False, initial=None, out=None, where=True):
        x = asarray(x)
        if where is not True:
            raise Unmodelled(f'{self.name}.reduce(where=)')
        if out is not None:
            return _into(out, asarray(self.reduce(x, axis=axis, dtype=dtype, keepdims=keepdims, initial=initial)))
        if initial is not None:
            r = self.reduce(x, axis=axis, keepdims=keepdims)
            return self(asarray(initial), r) if isinstance(initial, ndarray) else self(initial, r)
        if dtype is not None and np.dtype(dtype) != x.dtype:
            x = x.astype(dtype)
        if not x.symbolic:
            return wrap(self.np.reduce(x.conc(), axis=_axis(axis), keepdims=bool(keepdims)))
        return _reduce(x, axis, keepdims, lambda v: self._fold(v), None)

    def _fold(self, v):
        r = None
        for e in v:
            r = e if r is None else self.fn(r, e)
        if r is None:
            if self.identity is None:
                raise ValueError('zero-size array to reduction operation')
            return self.identity
        return r

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(*(list(a.shape) + [1] * b.ndim)), b)


def _into(out, r):
    if list(out.shape) != list(r.shape):
        raise ValueError('non-broadcastable output operand')
    out[...] = r
    return out


def _axis(axis):
    if isinstance(axis, ndarray):
        return axis.conc()
    if isinstance(axis, (list,)):
        return axis
    if isinstance(axis, tuple):
        return tuple(int(a) for a in axis)
    if isinstance(axis, (SymInt, np.integer)):
        return int(axis)
    return axis


def _norm_axes(axis, n):
    if isinstance(axis, ndarray):
        if axis.ndim != 0:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        axis = int(axis)
    if isinstance(axis, list):
        raise TypeError("'list' object cannot be interpreted as an integer")
    if axis is None:
        return tuple(range(n))
    if not isinstance(axis, tuple):
        axis = (axis,)
    out = []
    for a in axis:
        a = int(a)
        if a < -n or a >= n:
            raise np.exceptions.AxisError(a, n)
        a = a + n if a < 0 else a
        if a in out:
            raise ValueError("duplicate value in 'axis'")
        out.append(a)
    return tuple(out)


def _reduce(x, axis, keepdims, fold, dt):
    dt = dt or x.dtype
    n = x.ndim
    axes = _norm_axes(axis, n)
    kd = bool(keepdims)
    if x.opaque:
        shp = [(1 if i in axes else s) for i, s in enumerate(x.shape) if kd or i not in axes]
        if not shp:
            return _scalar_out(0, dt)
        return mkopaque(shp, dt, None)
    keep = [i for i in range(n) if i not in axes]
    o = x.ob().transpose(keep + list(axes))
    ks = [x.shape[i] for i in keep]
    o = o.reshape((_prod(ks), _prod([x.shape[i] for i in axes])))
    r = np.empty(o.shape[0], dtype=object)
    for i in range(o.shape[0]):
        r[i] = cast_elem(fold(list(o[i])), dt)
    shp = [(1 if i in axes else s) for i, s in enumerate(x.shape)] if kd else ks
    r = r.reshape(shp)
    if r.ndim == 0:
        return _scalar_out(r[()], dt)
    return ndarray(r, dt)


add = Ufunc('add', lambda a, b: a + b, identity=0)
subtract = Ufunc('subtract', lambda a, b: a - b)
multiply = Ufunc('multiply', lambda a, b: a * b, identity=1)
true_divide = divide = Ufunc('true_divide', _zdiv)
floor_divide = Ufunc('floor_divide', _floor_div)
remainder = mod = Ufunc('remainder', _mod)
fmod = Ufunc('fmod', _fmod)
maximum = Ufunc('maximum', smax)
minimum = Ufunc('minimum', smin)
less = Ufunc('less', lambda a, b: a < b)
less_equal = Ufunc('less_equal', lambda a, b: a <= b)
greater = Ufunc('greater', lambda a, b: a > b)
greater_equal = Ufunc('greater_equal', lambda a, b: a >= b)
equal = Ufunc('equal', lambda a, b: a == b)
not_equal = Ufunc('not_equal', lambda a, b: a != b)
logical_and = Ufunc('logical_and', lambda a, b: sand(_truth(a), _truth(b)), identity=True)
logical_or = Ufunc('logical_or', lambda a, b: sor(_truth(a), _truth(b)), identity=False)
logical_xor = Ufunc('logical_xor', lambda a, b: sor(sand(_truth(a), snot(_truth(b))), sand(snot(_truth(a)), _truth(b))))
logical_not = Ufunc('logical_not', lambda a: snot(_truth(a)))
negative = Ufunc('negative', lambda a: -a)
absolute = Ufunc('absolute', lambda a: builtins.abs(a))
fabs = Ufunc('fabs', lambda a: builtins.abs(a))
sign = Ufunc('sign', sign_e)
floor = Ufunc('floor', floor_e)
ceil = Ufunc('ceil', ceil_e)
rint = Ufunc('rint', round_e)
trunc = Ufunc('trunc', trunc_e)
power = Ufunc('power', _pow)
square = Ufunc('square', lambda a: a * a)
reciprocal = Ufunc('reciprocal', lambda a: _zdiv(1, a))
bitwise_and = Ufunc('bitwise_and', lambda a, b: a & b)
bitwise_or = Ufunc('bitwise_or', lambda a, b: a | b)
bitwise_xor = Ufunc('bitwise_xor', lambda a, b: a ^ b)
left_shift = Ufunc('left_shift', lambda a, b: a << b)
right_shift = Ufunc('right_shift', lambda a, b: a >> b)
invert = bitwise_not = Ufunc('invert', lambda a: ~a)
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'arctan', 'log1p', 'expm1', 'sinh', 'cosh', 'exp2',
           'log2', 'log10', 'arcsin', 'arccos', 'cbrt', 'erf'):
    if hasattr(np, _n):
        globals()[_n] = Ufunc(_n, lambda a, _n=_n: uf(_n, a))
isnan = Ufunc('isnan', lambda a: False if is_sym(a) else a != a)
isfinite = Ufunc('isfinite', lambda a: True if is_sym(a) else _math.isfinite(a))
isinf = Ufunc('isinf', lambda a: False if is_sym(a) else _math.isinf(a))


def abs(x):
    return absolute(x)


def round(x, decimals=0):
    if decimals != 0:
        return wrap(np.round(_conc(x), decimals))
    return rint(x)


round_ = around = round


def _bin(u, rev=False):
    def f(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        return u(o, self) if rev else u(self, o)
    return f


for _name, _u in [('add', add), ('sub', subtract), ('mul', multiply), ('truediv', true_divide),
                  ('floordiv', floor_divide), ('mod', remainder), ('pow', power), ('and', bitwise_and),
                  ('or', bitwise_or), ('xor', bitwise_xor), ('lshift', left_shift), ('rshift', right_shift),
                  ('matmul', lambda a, b: matmul(a, b))]:
    setattr(ndarray, f'__{_name}__', _bin(_u))
    setattr(ndarray, f'__r{_name}__', _bin(_u, True))


def _inplace(u):
    def f(self, o):
        r = asarray(u(self, o))
        if self.a is not None and r.a is not None and r.a.shape == self.a.shape:
            if r.symbolic or self.a.dtype == object:
                if self.a.dtype == object:
                    self.a[...] = r.astype(self.dtype).ob()
                else:
                    self.a = r.astype(self.dtype).ob()
            else:
                self.a[...] = r.conc().astype(self.dtype)
            return self
        return r
    return f


for _name, _u in [('add', add), ('sub', subtract), ('mul', multiply), ('truediv', true_divide),
                  ('floordiv', floor_divide), ('mod', remainder), ('and', bitwise_and), ('or', bitwise_or),
                  ('lshift', left_shift), ('rshift', right_shift), ('xor', bitwise_xor)]:
    setattr(ndarray, f'__i{_name}__', _inplace(_u))


def _cmp(u, d):
    def f(self, o):
        if o is None or isinstance(o, str):
            return d
        return u(self, o)
    return f


ndarray.__lt__ = _cmp(less, NotImplemented)
ndarray.__le__ = _cmp(less_equal, NotImplemented)
ndarray.__gt__ = _cmp(greater, NotImplemented)
ndarray.__ge__ = _cmp(greater_equal, NotImplemented)
ndarray.__eq__ = _cmp(equal, False)
ndarray.__ne__ = _cmp(not_equal, True)
ndarray.__hash__ = None
ndarray.__neg__ = lambda s: negative(s)
ndarray.__pos__ = lambda s: s
ndarray.__abs__ = lambda s: absolute(s)
ndarray.__invert__ = lambda s: logical_not(s) if s.dtype.kind == 'b' else invert(s)


# ---- reductions
def _sum_dtype(x):
    if x.dtype.kind == 'b' or (x.dtype.kind == 'i' and x.dtype.itemsize < 8):
        return np.dtype(np.int64)
    if x.dtype.kind == 'u' and x.dtype.itemsize < 8:
        return np.dtype(np.uint64)
    return x.dtype


def sum(x, axis=None, dtype=None, keepdims=False, out=None):
    if isinstance(x, (list, tuple)) and builtins.any(isinstance(v, ndarray) for v in x):
        r = 0
        for v in x:
            r = r + v
        return r
    x = asarray(x)
    if out is not None:
        return _into(out, asarray(sum(x, axis, dtype, keepdims)))
    if not x.symbolic:
        return wrap(np.sum(x.conc(), axis=_axis(axis), dtype=dtype, keepdims=bool(keepdims)))

    def fold(v):
        r = 0
        for e in v:
            r = r + (e.i() if isinstance(e, SymBool) else int(e) if isinstance(e, (bool, np.bool_)) else e)
        return r
    return _reduce(x, axis, keepdims, fold, np.dtype(dtype) if dtype else _sum_dtype(x))


def prod(x, axis=None, dtype=None, keepdims=False):
    x = asarray(x)
    if not x.symbolic:
        return wrap(np.prod(x.conc(), axis=_axis(axis), dtype=dtype, keepdims=bool(keepdims)))
    return _reduce(x, axis, keepdims, _prod, np.dtype(dtype) if dtype else _sum_dtype(x))


def mean(x, axis=None, dtype=None, keepdims=False):
    x = asarray(x)
    if dtype is not None:
        x = x.astype(dtype)
    if not x.symbolic:
        return wrap(np.mean(x.conc(), axis=_axis(axis), keepdims=bool(keepdims)))
    dt = x.dtype if x.dtype.kind == 'f' else np.dtype(np.float64)

    def fold(v):
        r = 0
        for e in v:
            r = r + e
        return _zdiv(SymRat.lift(r) if isinstance(r, (SymInt, int)) else r, len(v))
    return _reduce(x, axis, keepdims, fold, dt)


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    x = asarray(x)
    if dtype is not None:
        x = x.astype(dtype)
    if not x.symbolic:
        return wrap(np.var(x.conc(), axis=_axis(axis), ddof=ddof, keepdims=bool(keepdims)))
    dt = x.dtype if x.dtype.kind == 'f' else np.dtype(np.float64)

    def fold(v):
        q = [SymRat.lift(e) if isinstance(e, (SymInt, int)) else e for e in v]
        m = r = 0
        for e in q:
            m = m + e
        m = _zdiv(m, len(q))
        for e in q:
            r = r + (e - m) * (e - m)
        return _zdiv(r, len(q) - ddof)
    return _reduce(x, axis, keepdims, fold, dt)


def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return sqrt(var(x, axis, dtype, out, ddof, keepdims))


def max(x, axis=None, out=None, keepdims=False, initial=None):
    x = asarray(x)
    return maximum.reduce(x, axis=axis, keepdims=keepdims, initial=initial, out=out)


def min(x, axis=None, out=None, keepdims=False, initial=None):
    x = asarray(x)
    return minimum.reduce(x, axis=axis, keepdims=keepdims, initial=initial, out=out)


amax, amin = max, min


def any(x, axis=None, keepdims=False):
    return logical_or.reduce(asarray(x), axis=axis, keepdims=keepdims)


def all(x, axis=None, keepdims=False):
    return logical_and.reduce(asarray(x), axis=axis, keepdims=keepdims)


def count_nonzero(x, axis=None, keepdims=False):
    x = asarray(x)
    return sum(x != 0 if x.dtype.kind != 'b' else x, axis=axis, keepdims=keepdims)


def argmax(x, axis=None, keepdims=False):
    return _arg(x, axis, keepdims, lambda a, b: a > b, np.argmax)


def argmin(x, axis=None, keepdims=False):
    return _arg(x, axis, keepdims, lambda a, b: a < b, np.argmin)


def _arg(x, axis, keepdims, better, real):
    x = asarray(x)
    if not x.symbolic:
        return wrap(real(x.conc(), axis=_axis(axis), keepdims=keepdims))

    def fold(v):
        if not v:
            raise ValueError('attempt to get argmax of an empty sequence')
        best, idx = v[0], 0
        for i, e in enumerate(v[1:], 1):
            c = better(e, best)
            best, idx = ite(c, e, best), ite(c, i, idx)
        return idx
    return _reduce(x, axis, keepdims, fold, np.dtype(np.int64))


def cumsum(x, axis=None, dtype=None):
    x = asarray(x)
    if isinstance(axis, ndarray):
        axis = axis.item() if axis.size == 1 and axis.ndim == 0 else axis.__index__()
    if not x.symbolic:
        return wrap(np.cumsum(x.conc(), axis=_axis(axis), dtype=dtype))
    ax = _norm_axes(axis, x.ndim)
    if x.opaque:
        return mkopaque(x.shape, np.dtype(dtype) if dtype is not None else _sum_dtype(x))
    if axis is None:
        x = x.reshape(-1)
        ax = (0,)
    o = x.ob().copy()
    o = np.moveaxis(o, ax[0], 0)
    for i in range(1, o.shape[0]):
        for j in np.ndindex(o.shape[1:]):
            o[(i,) + j] = o[(i - 1,) + j] + o[(i,) + j]
    return ndarray(np.moveaxis(o, 0, ax[0]), np.dtype(dtype) if dtype is not None else _sum_dtype(x))


# ---- shape manipulation
def transpose(x, axes=None):
    x = asarray(x)
    if axes is not None:
        axes = [int(a) for a in axes]
    if x.a is not None:
        return ndarray(np.transpose(x.a, axes), x.dtype)
    n = x.ndim
    if axes is None:
        axes = list(range(n))[::-1]
    if len(axes) != n:
        raise ValueError("axes don't match array")
    axes = _norm_axes(tuple(axes), n)
    return mkopaque([x.shape[a] for a in axes], x.dtype, x.fv)


def swapaxes(x, a, b):
    x = asarray(x)
    p = list(range(x.ndim))
    a, b = int(a) % x.ndim, int(b) % x.ndim
    p[a], p[b] = p[b], p[a]
    return transpose(x, p)


def moveaxis(x, a, b):
    x = asarray(x)
    p = [i for i in range(x.ndim) if i != int(a) % x.ndim]
    p.insert(int(b) % x.ndim, int(a) % x.ndim)
    return transpose(x, p)


def reshape(x, s, order='C'):
    return asarray(x).reshape(s)


def ravel(x):
    return asarray(x).reshape(-1)


def expand_dims(x, axis):
    x = asarray(x)
    if isinstance(axis, ndarray):
        axis = int(axis.item())
    if not isinstance(axis, (list, tuple)):
        axis = (axis,)
    n = x.ndim + len(axis)
    axes = _norm_axes(tuple(axis), n)
    it = iter(x.shape)
    s = [1 if i in axes else next(it) for i in range(n)]
    if x.a is not None:
        return ndarray(x.a.reshape(s), x.dtype)
    return mkopaque(s, x.dtype, x.fv)


def squeeze(x, axis=None):
    x = asarray(x)
    if axis is None:
        axes = [i for i, d in enumerate(x.shape) if bool(d == 1)]
    else:
        if isinstance(axis, ndarray):
            axis = int(axis)
        axes = _norm_axes(axis if isinstance(axis, tuple) else (axis,), x.ndim)
        for a in axes:
            if bool(x.shape[a] != 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    s = [d for i, d in enumerate(x.shape) if i not in axes]
    if x.a is not None:
        return ndarray(x.a.reshape(s), x.dtype)
    return mkopaque(s, x.dtype, x.fv)


def concatenate(xs, axis=0):
    xs = [asarray(v) for v in xs]
    dt = np.result_type(*[v.dtype for v in xs])
    axis = None if axis is None else int(axis)
    if builtins.any(v.opaque for v in xs):
        n = xs[0].ndim
        if builtins.any(v.ndim != n for v in xs) or n == 0:
            raise ValueError('all the input array dimensions must match')
        ax = _norm_axes(axis, n)[0]
        s = list(xs[0].shape)
        for v in xs[1:]:
            for i in range(n):
                if i == ax:
                    s[i] = s[i] + v.shape[i]
                elif bool(v.shape[i] != s[i]):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match')
        return mkopaque(s, dt)
    if not builtins.any(v.symbolic for v in xs):
        return wrap(np.concatenate([v.conc() for v in xs], axis))
    return ndarray(np.concatenate([v.ob() for v in xs], axis), dt).astype(dt)


def stack(xs, axis=0):
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def hstack(xs):
    xs = [asarray(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    xs = [asarray(x) for x in xs]
    return concatenate([x.reshape(1, -1) if x.ndim == 1 else x for x in xs], 0)


def tile(x, reps):
    x = asarray(x)
    if isinstance(reps, ndarray):
        reps._materialise()
        reps = [reps.item()] if reps.ndim == 0 else reps.tolist()
    elif isinstance(reps, (int, SymInt, np.integer)):
        reps = [reps]
    reps = [strip(r) for r in reps]
    if x.a is not None and not builtins.any(is_sym(r) for r in reps):
        return ndarray(np.tile(x.a, reps), x.dtype)
    s = list(x.shape)
    n = builtins.max(len(s), len(reps))
    s = [1] * (n - len(s)) + s
    reps = [1] * (n - len(reps)) + list(reps)
    for r in reps:
        if bool(r < 0):
            raise ValueError('negative dimensions are not allowed')
    return mkopaque([a * b for a, b in zip(s, reps)], x.dtype, x.fv)


def repeat(x, n, axis=None):
    x = asarray(x)
    if isinstance(n, ndarray):
        n = [int(v) for v in n.ob().reshape(-1)]
    else:
        n = int(n)
    x._materialise()
    return ndarray(np.repeat(x.a, n, axis), x.dtype)


def take(x, idx, axis=None, out=None, mode='raise'):
    x, idx = asarray(x), asarray(idx)
    if out is not None:
        return _into(out, asarray(take(x, idx, axis, mode=mode)))
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    ax = _norm_axes(axis, x.ndim)[0]
    if x.opaque or idx.opaque:
        return mkopaque(list(x.shape[:ax]) + list(idx.shape) + list(x.shape[ax + 1:]), x.dtype)
    if not idx.symbolic:
        r = np.take(x.a, idx.conc(), axis, mode=mode)
        return ndarray(r, x.dtype) if isinstance(r, np.ndarray) else _scalar_out(r, x.dtype)
    n = x.shape[ax]
    xo = np.moveaxis(x.ob(), ax, 0)
    rest = xo.shape[1:]
    out = np.empty(tuple(idx.shape) + rest, dtype=object)
    io = idx.ob()
    for k in np.ndindex(*io.shape):
        i = io[k]
        if is_sym(i):
            if mode == 'clip':
                i = ite(i < 0, 0, ite(i >= n, n - 1, i))
            elif mode == 'wrap':
                i = i % n
            elif bool(sor(i < -n, i >= n)):
                raise IndexError('index out of bounds')
            else:
                i = ite(i < 0, i + n, i)
            for r in np.ndindex(*rest):
                v = xo[(n - 1,) + r]
                for j in range(n - 2, -1, -1):
                    v = ite(i == j, xo[(j,) + r], v)
                out[k + r] = v
        else:
            for r in np.ndindex(*rest):
                out[k + r] = xo[(i,) + r]
    k = idx.ndim
    perm = list(range(k, k + ax)) + list(range(k)) + list(range(k + ax, k + len(rest)))
    return ndarray(out.transpose(perm), x.dtype)


def split(x, indices, axis=0):
    x = asarray(x)
    ax = _norm_axes(axis, x.ndim)[0]
    dim = x.shape[ax]
    if isinstance(indices, ndarray):
        indices = indices.tolist()
    if isinstance(indices, (int, np.integer, SymInt)):
        n = int(indices)
        if bool(dim % n != 0):
            raise ValueError('array split does not result in an equal division')
        s = dim // n
        indices = [s * i for i in range(1, n)]
    pos = [None] + [strip(v) for v in indices] + [None]
    out = []
    for a, b in zip(pos[:-1], pos[1:]):
        k = [slice(None)] * x.ndim
        k[ax] = slice(a, b)
        if x.a is not None:
            out.append(x[tuple(slice(None if s.start is None else int(s.start), None if s.stop is None else int(s.stop))
                               if isinstance(s, slice) else s for s in k)])
        else:
            out.append(x[tuple(k)])
    return out


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    args = [asarray(v) if isinstance(v, (list, tuple)) else v for v in (c, x, y)]
    if not _anysym(args):
        return wrap(np.where(*[_conc(a) for a in args]))
    d = []
    for a in args[1:]:
        if isinstance(a, ndarray):
            d.append(np.ones((1,) * a.ndim, a.dtype))
        elif is_sym(a):
            d.append(elem_dtype(a).type(1) if getattr(a, 'dt', None) is not None else
                     (1 if isinstance(a, SymInt) else True if isinstance(a, SymBool) else 1.0))
        else:
            d.append(a)
    dt = np.result_type(*d)
    if builtins.any(isinstance(a, ndarray) and a.opaque for a in args):
        return mkopaque(sym_broadcast([a.shape if isinstance(a, ndarray) else () for a in args]), dt)
    boxed = []
    for a in args:
        if isinstance(a, ndarray):
            boxed.append(a.ob())
        else:
            b = np.empty((), dtype=object)
            b[()] = a.item() if isinstance(a, np.generic) else a
            boxed.append(b)
    r = np.frompyfunc(lambda c, a, b: cast_elem(ite(_truth(c), a, b), dt), 3, 1)(*boxed)
    if not isinstance(r, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = r
        r = b
    return ndarray(r, dt)


def clip(x, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.pop('min', a_min)
    a_max = kw.pop('max', a_max)
    if kw:
        raise Unmodelled(f'clip({list(kw)})')
    if out is not None:
        return _into(out, asarray(clip(x, a_min, a_max)))
    r = x
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if a_min is None and a_max is None:
        return asarray(x).copy()
    return r


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if not a.symbolic and not b.symbolic:
        return wrap(np.matmul(a.conc(), b.conc()))
    dt = np.result_type(a.dtype, b.dtype)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.opaque or b.opaque:
        sa, sb = list(a.shape), list(b.shape)
        pa, pb = len(sa) == 1, len(sb) == 1
        if pa:
            sa = [1] + sa
        if pb:
            sb = sb + [1]
        if bool(sa[-1] != sb[-2]):
            raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
        bt = sym_broadcast([sa[:-2], sb[:-2]]) if (len(sa) > 2 or len(sb) > 2) else []
        s = bt + ([] if pa else [sa[-2]]) + ([] if pb else [sb[-1]])
        return mkopaque(s, dt)
    r = np.matmul(a.ob(), b.ob())
    if not isinstance(r, np.ndarray):
        return _scalar_out(cast_elem(r, dt), dt)
    return ndarray(np.frompyfunc(lambda v: cast_elem(v, dt), 1, 1)(r), dt)


dot = matmul


def pad(x, pad_width, mode='constant', **kw):
    x = asarray(x)
    pw = pad_width.tolist() if isinstance(pad_width, ndarray) else [list(p) if isinstance(p, (list, tuple, ndarray)) else p for p in pad_width]
    if not x.symbolic and not _anysym(pw):
        return wrap(np.pad(x.conc(), _conc(pw), mode=mode, **_conc(kw)))
    if x.opaque or _anysym(pw):
        for a, b in pw:
            if bool(sor(a < 0, b < 0)):
                raise ValueError("index can't contain negative values")
        return mkopaque([d + strip(a) + strip(b) for d, (a, b) in zip(x.shape, pw)], x.dtype)
    if mode == 'constant':
        v = kw.get('constant_values', 0)
        v = v.item() if isinstance(v, ndarray) else v
        sh = [d + a + b for d, (a, b) in zip(x.shape, pw)]
        o = np.empty(sh, dtype=object)
        o[...] = cast_elem(v, x.dtype)
        o[tuple(slice(a, a + d) for d, (a, b) in zip(x.shape, pw))] = x.ob()
        return ndarray(o, x.dtype)
    return ndarray(np.pad(x.ob(), pw, mode=mode), x.dtype)


def arange(*a, dtype=None):
    a = [v.item() if isinstance(v, ndarray) else v for v in a]
    if not _anysym(a):
        return wrap(np.arange(*a, dtype=dtype))
    a = [strip(v) for v in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if bool(step == 0):
        raise ZeroDivisionError('Maximum allowed size exceeded')
    if builtins.any(isinstance(v, (SymRat, SymReal, float)) for v in (start, stop, step)):
        n = ceil_e(_zdiv(SymRat.lift(stop) - start, step))
        n = n.n if isinstance(n, SymRat) else n
    elif bool(step > 0):
        n = (stop - start + step - 1) // step
    else:
        n = (start - stop - step - 1) // (-step)
    n = smax(n, 0)
    dt = np.dtype(dtype) if dtype is not None else np.result_type(*[elem_dtype(v) for v in a])
    if is_sym(n) and (n.hi is None or n.hi > 16):
        return mkopaque([n], dt)
    n = int(n)
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = cast_elem(start + step * i, dt)
    return ndarray(o, dt)


def nonzero(x):
    x = asarray(x)
    if x.symbolic:
        x._materialise()
        m = np.array([bool(_truth(v)) for v in x.a.reshape(-1)], dtype=bool).reshape(x.a.shape)
        return wrap(np.nonzero(m))
    return wrap(np.nonzero(x.conc()))


def compress(c, x, axis=None):
    c, x = asarray(c), asarray(x)
    c._materialise()
    m = [bool(_truth(v)) for v in c.a.reshape(-1)]
    if x.opaque and axis is not None:
        ax = _norm_axes(axis, x.ndim)[0]
        return mkopaque([builtins.sum(m) if i == ax else d for i, d in enumerate(x.shape)], x.dtype)
    x._materialise()
    return ndarray(np.compress(m, x.a, axis), x.dtype)


def argsort(x, axis=-1, kind=None):
    """order of the elements of a vector; every comparison of symbolic elements splits the path"""
    x = asarray(x)
    if not x.symbolic:
        return wrap(np.argsort(x.conc(), axis=axis, kind=kind))
    if x.ndim != 1:
        raise Unmodelled('argsort of a symbolic matrix')
    x._materialise()
    v, order = list(x.a), []
    for i in range(len(v)):
        j = len(order)
        while j > 0 and bool(v[i] < v[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return wrap(np.array(order, dtype=np.int64))


def sort(x, axis=-1, kind=None):
    x = asarray(x)
    return x[argsort(x, axis)] if x.symbolic else wrap(np.sort(x.conc(), axis=axis, kind=kind))


def unique(x):
    x = asarray(x)
    if not x.symbolic:
        return wrap(np.unique(x.conc()))
    x = sort(x.reshape(-1))
    keep = [i for i in range(len(x.a)) if i == 0 or bool(x.a[i] != x.a[i - 1])]
    return x[keep]


def searchsorted(x, v, side='left', sorter=None):
    x = asarray(x)
    if not x.symbolic and not _anysym([v]):
        return wrap(np.searchsorted(x.conc(), _conc(v), side=side))
    x._materialise()
    i = 0
    while i < len(x.a) and bool((x.a[i] < v) if side == 'left' else (x.a[i] <= v)):
        i += 1
    return i


def tril(x, k=0):
    return _tri(x, k, np.tril)


def triu(x, k=0):
    return _tri(x, k, np.triu)


def _tri(x, k, real):
    x = asarray(x)
    if isinstance(k, ndarray):
        k = k.item()
    if not x.symbolic and not is_sym(k):
        return wrap(real(x.conc(), k))
    if x.opaque:
        return mkopaque(x.shape, x.dtype)
    mask = real(np.ones(x.shape, dtype=np.int64), int(k))
    return where(ndarray(mask != 0), x, np.zeros((), x.dtype).item())


def ndindex(*s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return np.ndindex(*[int(v) for v in s])


def broadcast_to(x, shape):
    x = asarray(x)
    shape = _shape_arg(shape)
    if x.a is not None and not builtins.any(is_sym(v) for v in shape):
        return ndarray(np.broadcast_to(x.a, tuple(int(v) for v in shape)), x.dtype)
    r = sym_broadcast([x.shape, shape])
    for a, b in zip(r, shape):
        if bool(a != b):
            raise ValueError('could not broadcast')
    if len(r) != len(shape):
        raise ValueError('could not broadcast')
    return mkopaque(shape, x.dtype, x.fv)


def broadcast_shapes(*s):
    return tuple(sym_broadcast([list(v) if isinstance(v, (list, tuple)) else [v] for v in s]))


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not core.sand(*[x == y for x, y in zip(a.shape, b.shape)]):
        return False
    return (a == b).all()


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def ndim(x):
    return asarray(x).ndim


def size(x, axis=None):
    x = asarray(x)
    return x.size if axis is None else x.shape[axis]


def shape(x):
    return asarray(x).shape


def copy(x):
    return asarray(x).copy()


class BitsArray:
    """raw bit patterns of symbolic half-precision values (uint16)"""

    def __init__(self, elems, dtype):
        self.elems, self.dtype = elems, np.dtype(dtype)

    def tobytes(self):
        from .fonnx import SymBytes
        return SymBytes([getattr(e, 'v', e) for e in self.elems], np.float16 if self.dtype == np.uint16 else self.dtype)

    def view(self, dt):
        return frombuffer(self.tobytes(), dt)

    def astype(self, dt):
        return BitsArray(self.elems, dt)

    def reshape(self, *a):
        raise Unmodelled('reshaping raw half-precision bits')


def fromiter(it, dtype=None, count=-1):
    it = list(it)
    if builtins.any(type(v).__name__ == 'HalfBits' for v in it):
        return BitsArray(it, dtype)
    return array(it, dtype=dtype)


def atleast_1d(x):
    x = asarray(x)
    return x.reshape(1) if x.ndim == 0 else x


def real_of_bits(b, dtype):
    """the number a bit pattern stands for: an uninterpreted function of the pattern"""
    b = core.SymInt(core.z3int(b)) if not isinstance(b, core.SymInt) else b
    f = core.z3.Function(f'uf_bits{np.dtype(dtype).itemsize}', core.z3.RealSort(), core.z3.RealSort())
    return core.SymReal(f(core.z3real(b)))


def frombuffer(buf, dtype=float, **kw):
    if type(buf).__name__ == 'SymBytes':
        if np.dtype(dtype).kind == 'f' and buf.dtype.kind == 'u' and np.dtype(dtype).itemsize == buf.dtype.itemsize and not kw:
            return array([real_of_bits(b, dtype) for b in buf.elems], dtype)
        if np.dtype(dtype) != buf.dtype or kw:
            raise Unmodelled(f'bytes of {buf.dtype} read as {np.dtype(dtype)}')
        r = array(list(buf.elems), dtype)
        return r
    return ndarray(np.frombuffer(buf, dtype=dtype, **kw))


class NumpyModule(types.ModuleType):
    """module object handed to the shadowed code as `numpy`"""

    def __init__(self):
        super().__init__('numpy')
        g = globals()
        for k, v in g.items():
            if k.startswith('_') or k in ('np', 'builtins', 'types', 'core', 'Fraction', 'Ufunc', 'NumpyModule',
                                          'Sym', 'SymBool', 'SymInt', 'SymRat', 'SymReal', 'real_of_bits', 'eng', 'ite', 'is_sym',
                                          'sand', 'sor', 'snot', 'wrap', 'cast_elem', 'strip', 'smax', 'smin',
                                          'pymod', 'floordiv', 'Unmodelled', 'mkopaque', 'elem_dtype'):
                continue
            self.__dict__[k] = v

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            if isinstance(v, types.ModuleType):
                return v
            return v

        def f(*a, **k):
            return wrap(v(*_conc(a), **_conc(k)))
        f.__name__ = name
        return f


module = NumpyModule()
