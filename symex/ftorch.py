"""A stand-in for torch (which is not installed here), small and in plain Python: tensors are strided
views of byte storages, elements are numbers or solver terms.  Both the symbolic run and the replay use
it; what it does not model raises Unmodelled, which ends a path without a verdict."""
import math
import types
import warnings
from fractions import Fraction
from . import core
from .core import is_sym, ite, Unmodelled, SymBool, SymInt, SymReal, SymRat


class dt:
    def __init__(self, name, size, kind):
        self.name, self.itemsize, self.kind = name, size, kind

    def __repr__(self):
        return 'torch.' + self.name

    @property
    def is_floating_point(self):
        return self.kind == 'f'


float16, float32, float64 = dt('float16', 2, 'f'), dt('float32', 4, 'f'), dt('float64', 8, 'f')
bfloat16 = dt('bfloat16', 2, 'f')
uint8, int8, int16, int32, int64 = dt('uint8', 1, 'u'), dt('int8', 1, 'i'), dt('int16', 2, 'i'), dt('int32', 4, 'i'), dt('int64', 8, 'i')
bool_ = dt('bool', 1, 'b')
half, double, float_, long, int_ = float16, float64, float32, int64, int32


class Garbage:
    """what uninitialised memory holds: equal to nothing"""

    def _g(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _g
    __pow__ = __rpow__ = __floordiv__ = __mod__ = _g

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = None

    def __float__(self):
        return math.nan

    def __int__(self):
        raise RuntimeError('uninitialised memory used as a number')

    __index__ = __int__


GARBAGE = Garbage()


def isg(*a):
    return any(isinstance(x, Garbage) for x in a)


class Storage:
    def __init__(self, nbytes):
        self.nbytes, self.cells, self.fill, self.dirty = nbytes, {}, GARBAGE, set()

    def read(self, o, s):
        o = int(o)
        c = self.cells.get(o)
        if c is not None and c[0] == s:
            return c[1]
        if c is not None or any(b in self.dirty for b in range(o, o + s)):
            return GARBAGE
        for b in range(o - 7, o + s):
            c = self.cells.get(b)
            if c is not None and b + c[0] > o:
                return GARBAGE
        return self.fill

    def write(self, o, s, v):
        o = int(o)
        for b in range(o - 7, o + s):
            c = self.cells.get(b)
            if c is not None and b + c[0] > o and not (b == o and c[0] == s):
                del self.cells[b]
                self.dirty.update(range(b, b + c[0]))
        self.dirty.difference_update(range(o, o + s))
        self.cells[o] = (s, v)

    def clear(self, v):
        self.cells, self.fill, self.dirty = {}, v, set()


class Size(tuple):
    def numel(self):
        return _prod(self)


def _prod(s):
    n = 1
    for v in s:
        n = n * v
    return n


def _min(a, b):
    return ite(a < b, a, b) if is_sym(a) or is_sym(b) else min(a, b)


def _max(a, b):
    return ite(a > b, a, b) if is_sym(a) or is_sym(b) else max(a, b)


def _contig(shape, size):
    st, n = [], size
    for d in reversed(tuple(shape)):
        st.append(n)
        n = n * d
    return tuple(reversed(st))


def _index(i, n, what='index'):
    j = int(i)
    if not -n <= j < n:
        raise IndexError(f'{what} {j} is out of range for size {n}')
    return j + n if j < 0 else j


def _axis(d, n):
    m = max(n, 1)
    if not -m <= d < m:
        raise IndexError(f'Dimension out of range (expected to be in range of [{-m}, {m - 1}], but got {d})')
    return d + m if d < 0 else d


def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = a[0]
    return [v if is_sym(v) else v.item() if isinstance(v, Tensor) else _asint(v) for v in a]


def _asint(v):
    if isinstance(v, (float, Fraction)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(v)


def cast(v, d, s=None):
    """the value v of dtype s as dtype d"""
    if isg(v):
        return v
    if isinstance(v, float) and d.kind == 'f' and math.isfinite(v):
        return Fraction(v)
    if s is not None and s.kind == d.kind:
        if d.kind in 'iu' and d.itemsize < s.itemsize:
            if isinstance(v, int):
                return _wrap(v, d)
            raise Unmodelled('narrowing integer cast')
        return v
    if d.kind == 'b':
        r = v != 0
        return r
    if isinstance(v, (bool, SymBool)):
        v = v.i() if isinstance(v, SymBool) else int(v)
    if d.kind == 'f':
        return core.SymRat.lift(v) if isinstance(v, SymInt) else Fraction(v) if isinstance(v, int) else v
    if isinstance(v, (SymRat, SymReal)):
        return v.trunc()
    if isinstance(v, float) and not math.isfinite(v):
        raise Unmodelled('a non-finite number as an integer')
    return _wrap(int(v), d) if not is_sym(v) else int(v)


def _wrap(v, d):
    n = 8 * d.itemsize
    v %= 1 << n
    return v - (1 << n) if d.kind == 'i' and v >> (n - 1) else v


class Tensor:
    def __init__(self, st, dtype, off, shape, strides, device='cpu'):
        self.st, self.dtype, self.off = st, dtype, off
        self.shape, self.strides, self.device = Size(shape), tuple(strides), device

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unmodelled(f'torch.Tensor.{n}')

    # ---- geometry
    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return len(self.shape)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return _prod(self.shape)

    def nelement(self):
        return self.numel()

    def element_size(self):
        return self.dtype.itemsize

    def storage_offset(self):
        return self.off // self.dtype.itemsize

    def data_ptr(self):
        return 1 << 20 | id(self.st) << 24 if False else self.off

    def stride(self):
        return tuple(s // self.dtype.itemsize for s in self.strides)

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of a 0-d tensor')
        return int(self.shape[0])

    def is_contiguous(self):
        want = _contig(self.shape, self.dtype.itemsize)
        return all(d == 1 or bool(a == b) for d, a, b in zip(self.shape, self.strides, want)) or any(not is_sym(d) and d == 0 for d in self.shape)

    def _like(self, off, shape, strides, dtype=None):
        return Tensor(self.st, dtype or self.dtype, off, shape, strides, self.device)

    def _resolve(self, shape):
        shape = list(shape)
        neg = [i for i, s in enumerate(shape) if not is_sym(s) and s == -1]
        if len(neg) > 1:
            raise RuntimeError('only one dimension can be inferred')
        if any(bool(s < 0) for i, s in enumerate(shape) if i not in neg):
            raise RuntimeError(f'invalid shape dimension in {shape}')
        n = self.numel()
        if neg:
            k = _prod(s for i, s in enumerate(shape) if i not in neg)
            if bool(k == 0):
                raise RuntimeError('cannot reshape tensor of 0 elements into a shape with an unspecified dimension')
            if bool(n % k != 0):
                raise RuntimeError(f"shape '{shape}' is invalid for input of size {n}")
            shape[neg[0]] = n // k
        elif bool(_prod(shape) != n):
            raise RuntimeError(f"shape '{shape}' is invalid for input of size {n}")
        return shape

    def view(self, *a, dtype=None):
        if dtype is None and len(a) == 1 and isinstance(a[0], dt):
            dtype = a[0]
        if dtype is not None:
            if dtype.itemsize == self.dtype.itemsize:
                return self._like(self.off, self.shape, self.strides, dtype)
            k = dtype.itemsize
            if not self.shape:
                raise RuntimeError('self.dim() cannot be 0 to view with a different element size')
            if bool(self.strides[-1] != self.dtype.itemsize):
                raise RuntimeError('self.stride(-1) must be 1 to view with a different element size')
            nb = self.shape[-1] * self.dtype.itemsize
            if bool(nb % k != 0):
                raise RuntimeError(f'self.size(-1) must be divisible by {k} to view with a different element size')
            if bool(self.off % k != 0):
                raise RuntimeError(f'self.storage_offset() must be divisible by {k} to view with a different element size')
            return self._like(self.off, self.shape[:-1] + (nb // k,), self.strides[:-1] + (k,), dtype)
        shape = self._resolve(_shape_args(a))
        if not self.is_contiguous():
            raise RuntimeError('view size is not compatible with input tensor\'s size and stride')
        return self._like(self.off, shape, _contig(shape, self.dtype.itemsize))

    def reshape(self, *a):
        shape = self._resolve(_shape_args(a))
        t = self if self.is_contiguous() else self.clone()
        return t._like(t.off, shape, _contig(shape, t.dtype.itemsize))

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self.shape)
        if n == 0:
            return self.reshape(1)
        a, b = _axis(start_dim, n), _axis(end_dim, n)
        return self.reshape(list(self.shape[:a]) + [_prod(self.shape[a:b + 1])] + list(self.shape[b + 1:]))

    def permute(self, *a):
        p = [_axis(v, self.ndim) for v in _shape_args(a)]
        if sorted(p) != list(range(self.ndim)):
            raise RuntimeError('permute(dims): duplicate or missing dims')
        return self._like(self.off, [self.shape[i] for i in p], [self.strides[i] for i in p])

    def transpose(self, a, b):
        p = list(range(self.ndim))
        a, b = _axis(a, self.ndim), _axis(b, self.ndim)
        p[a], p[b] = p[b], p[a]
        return self.permute(p)

    def t(self):
        return self if self.ndim < 2 else self.transpose(0, 1)

    @property
    def T(self):
        return self.permute(list(reversed(range(self.ndim)))) if self.ndim else self

    def squeeze(self, dim=None):
        if dim is None:
            ax = set(range(self.ndim))
        else:
            ax = {_axis(int(d), self.ndim) for d in (dim if isinstance(dim, (tuple, list)) else [dim])}
        keep = [i for i in range(self.ndim) if not (i in ax and bool(self.shape[i] == 1))]
        return self._like(self.off, [self.shape[i] for i in keep], [self.strides[i] for i in keep])

    def unsqueeze(self, d):
        d = _axis(d, self.ndim + 1)
        return self._like(self.off, self.shape[:d] + (1,) + self.shape[d:], self.strides[:d] + (self.dtype.itemsize,) + self.strides[d:])

    def expand(self, *a):
        shape = _shape_args(a)
        k = len(shape) - self.ndim
        if k < 0:
            raise RuntimeError('the number of sizes provided must be greater or equal to the number of dimensions in the tensor')
        sh, st = [], []
        for i, s in enumerate(shape):
            if i < k:
                if bool(s < 0):
                    raise RuntimeError('The expanded size of the tensor (-1) isn\'t allowed in a leading, non-existing dimension')
                sh.append(s)
                st.append(0)
                continue
            d = self.shape[i - k]
            if bool(s == -1) or bool(s == d):
                sh.append(d)
                st.append(self.strides[i - k])
            elif bool(d == 1):
                sh.append(s)
                st.append(0)
            else:
                raise RuntimeError(f'The expanded size of the tensor ({s}) must match the existing size ({d}) at non-singleton dimension {i}')
        return self._like(self.off, sh, st)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (Tensor, list)) for k in key):
            raise Unmodelled('advanced indexing')
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if not is_sym(k) and not isinstance(k, slice)]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - n) + key[p + 1:]
        if n > self.ndim:
            raise IndexError(f'too many indices for tensor of dimension {self.ndim}')
        key = key + (slice(None),) * (self.ndim - sum(1 for k in key if k is not None))
        off, sh, st, ax = self.off, [], [], 0
        for k in key:
            if k is None:
                sh.append(1)
                st.append(self.dtype.itemsize)
                continue
            d, s = self.shape[ax], self.strides[ax]
            ax += 1
            if isinstance(k, slice):
                step = 1 if k.step is None else k.step
                if step <= 0:
                    raise ValueError('step must be greater than zero')
                a = 0 if k.start is None else k.start
                b = d if k.stop is None else k.stop
                a = ite(a < 0, a + d, a) if is_sym(a) else (a + d if a < 0 else a)
                b = ite(b < 0, b + d, b) if is_sym(b) else (b + d if b < 0 else b)
                a, b = _min(_max(a, 0), d), _min(_max(b, 0), d)
                b = _max(a, b)
                off = off + a * s
                sh.append((b - a + step - 1) // step)
                st.append(s * step)
            else:
                if bool(k >= d) or bool(k < -d):
                    raise IndexError(f'index {k} is out of bounds for dimension with size {d}')
                off = off + ite(k < 0, k + d, k) * s
        return self._like(off, sh, st)

    def __setitem__(self, key, v):
        t = self[key]
        if isinstance(v, Tensor):
            t.copy_(v)
        else:
            t.fill_(v)

    def select(self, dim, i):
        return self[(slice(None),) * _axis(dim, self.ndim) + (i,)]

    def narrow(self, dim, start, length):
        dim = _axis(dim, self.ndim)
        if bool(start < 0) or bool(start + length > self.shape[dim]):
            raise RuntimeError(f'start ({start}) + length ({length}) exceeds dimension size ({self.shape[dim]}).')
        return self[(slice(None),) * dim + (slice(start, start + length),)]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    # ---- elements
    def offsets(self):
        r = [self.off]
        for d, s in zip(self.shape, self.strides):
            d = int(d)
            r = [o + i * s for o in r for i in range(d)]
        return r

    def flat(self):
        k = self.dtype.itemsize
        return [self.st.read(o, k) for o in self.offsets()]

    def put(self, vals):
        k = self.dtype.itemsize
        if self.st.nbytes is not None:
            for o in self.offsets():
                if bool(o < 0) or bool(o + k > self.st.nbytes):
                    raise RuntimeError('setStorage: out of bounds')
        for o, v in zip(self.offsets(), vals):
            self.st.write(o, k, v)

    def tolist(self):
        def nest(v, sh):
            if not sh:
                return v[0]
            k = len(v) // int(sh[0]) if int(sh[0]) else 0
            return [nest(v[i * k:(i + 1) * k], sh[1:]) for i in range(int(sh[0]))]
        return nest(self.flat(), self.shape)

    def item(self):
        v = self.flat()
        if len(v) != 1:
            raise RuntimeError(f'a Tensor with {len(v)} elements cannot be converted to Scalar')
        return v[0]

    def __int__(self):
        return int(self.item())

    __index__ = __int__

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        return bool(self.item())

    def clone(self):
        return make(self.flat(), self.shape, self.dtype, self.device)

    def contiguous(self):
        return self if self.is_contiguous() else self.clone()

    def detach(self):
        return self

    cpu = detach

    def to(self, *a, device=None, dtype=None, **k):
        for v in a:
            if isinstance(v, dt):
                dtype = v
            elif isinstance(v, str):
                device = v
            elif isinstance(v, Tensor):
                dtype, device = v.dtype, v.device
            else:
                raise Unmodelled(f'Tensor.to({v!r})')
        t = self
        if dtype is not None and dtype is not self.dtype:
            t = make([cast(v, dtype, self.dtype) for v in t.flat()], t.shape, dtype, t.device)
        if device is not None and device != t.device:
            if is_sym(t.st.nbytes):
                raise Unmodelled('moving a tensor of symbolic size')
            # a copy on the other device: the bytes travel, element sizes included
            s = Storage(t.st.nbytes)
            s.cells, s.fill, s.dirty = dict(t.st.cells), t.st.fill, set(t.st.dirty)
            t = Tensor(s, t.dtype, t.off, t.shape, t.strides, device)
        return t

    def type(self, d=None):
        return self.to(d)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def copy_(self, src, non_blocking=False):
        if not isinstance(src, Tensor):
            raise TypeError('copy_(): argument must be a Tensor')
        src = src.expand(*self.shape) if tuple(src.shape) != tuple(self.shape) else src
        if src is self:
            return self
        self.put([cast(v, self.dtype, src.dtype) for v in src.flat()])
        return self

    def fill_(self, v):
        if isinstance(v, Tensor):
            v = v.item()
        self.put([cast(v, self.dtype)] * int(self.numel()))
        return self

    def zero_(self):
        if self.ndim == 1 and not is_sym(self.off) and self.off == 0 and bool(self.numel() * self.dtype.itemsize == self.st.nbytes):
            self.st.clear(0)
            return self
        return self.fill_(0)

    def numpy(self):
        raise Unmodelled('Tensor.numpy')

    def masked_fill(self, m, v):
        return where(m, v, self)

    # ---- arithmetic
    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return pow(self, o)
    def __matmul__(self, o): return matmul(self, o)
    def __gt__(self, o): return gt(self, o)
    def __lt__(self, o): return lt(self, o)
    def __ge__(self, o): return ge(self, o)
    def __le__(self, o): return le(self, o)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return ne(self, o)
    __hash__ = object.__hash__

    def add_(self, o, alpha=1): return _into(self, add(self, o, alpha=alpha))
    def sub_(self, o): return _into(self, sub(self, o))
    def mul_(self, o): return _into(self, mul(self, o))
    def div_(self, o): return _into(self, div(self, o))
    __iadd__, __isub__, __imul__, __itruediv__ = add_, sub_, mul_, div_

    # ---- reductions
    def mean(self, dim=None, keepdim=None, dtype=None):
        return mean(self, dim, keepdim)

    def sum(self, dim=None, keepdim=None, dtype=None):
        return sum_(self, dim, keepdim)

    def amax(self, dim=(), keepdim=False):
        return amax(self, dim, keepdim)

    def amin(self, dim=(), keepdim=False):
        return amin(self, dim, keepdim)

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None):
        return var(self, dim, unbiased=unbiased, keepdim=keepdim, correction=correction)

    def pow(self, e): return pow(self, e)
    def sqrt(self): return sqrt(self)
    def rsqrt(self): return rsqrt(self)
    def exp(self): return exp(self)
    def abs(self): return abs(self)
    def neg(self): return neg(self)
    def sigmoid(self): return sigmoid(self)
    def tanh(self): return tanh(self)
    def relu(self): return relu(self)
    def clamp(self, min=None, max=None): return clamp(self, min, max)
    def add(self, o, alpha=1): return add(self, o, alpha)
    def sub(self, o): return sub(self, o)
    def mul(self, o): return mul(self, o)
    def div(self, o): return div(self, o)
    def matmul(self, o): return matmul(self, o)
    def mm(self, o): return mm(self, o)
    def argmax(self, dim=None, keepdim=False): return argmax(self, dim, keepdim)
    def argmin(self, dim=None, keepdim=False): return argmin(self, dim, keepdim)

    def scatter_(self, dim, index, src):
        if self.ndim != 1 or index.ndim != 1:
            raise Unmodelled('scatter_')
        vs = self.flat()
        sv = src.flat() if isinstance(src, Tensor) else [src] * len(index.flat())
        for i, v in zip(index.flat(), sv):
            i = int(i)
            if not 0 <= i < len(vs):
                raise RuntimeError(f'index {i} is out of bounds for dimension 0 with size {len(vs)}')
            vs[i] = cast(v, self.dtype)
        self.put(vs)
        return self

    def softmax(self, dim=None): return softmax(self, dim)
    def index_select(self, d, i): return index_select(self, d, i)
    def gather(self, d, i): return gather(self, d, i)
    def split(self, n, dim=0): return split(self, n, dim)
    def chunk(self, n, dim=0): return chunk(self, n, dim)
    def unbind(self, dim=0): return tuple(self.select(dim, i) for i in range(int(self.shape[dim])))
    def eq(self, o): return eq(self, o)
    def gt(self, o): return gt(self, o)
    def lt(self, o): return lt(self, o)

    def repeat(self, *a):
        r = _shape_args(a)
        if len(r) < self.ndim:
            raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
        t = self
        for _ in range(len(r) - self.ndim):
            t = t.unsqueeze(0)
        for d, k in enumerate(r):
            if k != 1:
                if k < 0:
                    raise RuntimeError('Trying to create tensor with negative dimension')
                t = cat([t] * k, dim=d) if k else make([], t.shape[:d] + (0,) + t.shape[d + 1:], t.dtype)
        return t.clone() if t is self else t

    def repeat_interleave(self, k, dim=None):
        d = _axis(dim, self.ndim)
        return index_select(self, d, make([i for i in range(self.shape[d]) for _ in range(k)], [self.shape[d] * k], int64))


def _into(t, r):
    if t.dtype.kind != 'f' and r.dtype.kind == 'f':
        raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {t.dtype}")
    if tuple(r.shape) != tuple(t.shape):
        raise RuntimeError(f"output with shape {list(t.shape)} doesn't match the broadcast shape {list(r.shape)}")
    return t.copy_(r)


def make(vals, shape, dtype, device='cpu'):
    shape = [int(s) for s in shape]
    n, k = _prod(shape), dtype.itemsize
    assert len(vals) == n, (len(vals), shape)
    st = Storage(n * k)
    for i, v in enumerate(vals):
        st.cells[i * k] = (k, v)
    return Tensor(st, dtype, 0, shape, _contig(shape, k), device)


def _dims(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = a[0]
    return list(a)


def empty(*a, dtype=float32, device='cpu', out=None):
    s = _dims(a)
    if any(bool(d < 0) for d in s):
        raise RuntimeError('Trying to create tensor with negative dimension')
    return Tensor(Storage(_prod(s) * dtype.itemsize), dtype, 0, s, _contig(s, dtype.itemsize), device)


def full(size, v, dtype=None, device='cpu'):
    d = dtype or (float32 if isinstance(v, float) or isinstance(v, (SymReal, SymRat)) else int64)
    return make([v] * int(_prod(size)), size, d, device)


def zeros(*a, dtype=float32, device='cpu'):
    return full(_dims(a), 0, dtype, device)


def ones(*a, dtype=float32, device='cpu'):
    return full(_dims(a), 1, dtype, device)


def zeros_like(t):
    return full(t.shape, 0, t.dtype, t.device)


def ones_like(t):
    return full(t.shape, 1, t.dtype, t.device)


def full_like(t, v):
    return full(t.shape, v, t.dtype, t.device)


def empty_like(t):
    return empty(*t.shape, dtype=t.dtype, device=t.device)


def arange(a, b=None, step=1, dtype=None, device='cpu'):
    if b is None:
        a, b = 0, a
    v = list(range(int(a), int(b), step))
    return make(v, [len(v)], dtype or int64, device)


def _flatten(v):
    if isinstance(v, Tensor):
        return v.flat(), list(v.shape)
    if isinstance(v, (list, tuple)):
        r = [_flatten(x) for x in v]
        sh = r[0][1] if r else []
        return [x for y, _ in r for x in y], [len(v)] + sh
    return [v], []


def tensor(data, dtype=None, device='cpu'):
    v, sh = _flatten(data)
    if dtype is None:
        f = not v or any(isinstance(x, (float, Fraction, SymReal, SymRat)) for x in v)
        dtype = float32 if f else bool_ if all(isinstance(x, (bool, SymBool)) for x in v) else int64
    return make([cast(x, dtype) for x in v], sh, dtype, device)


NPDT = {'float16': float16, 'float32': float32, 'float64': float64, 'uint8': uint8, 'int8': int8, 'int16': int16,
        'int32': int32, 'int64': int64, 'bool': bool_}


def from_numpy(a):
    import numpy as np
    if hasattr(a, '_materialise'):
        a._materialise()
        v = list(a.a.reshape(-1))
    else:
        v = list(a.reshape(-1).tolist())
    return make(v, list(a.shape), NPDT[np.dtype(a.dtype).name])


def as_tensor(a, dtype=None, device='cpu'):
    t = a if isinstance(a, Tensor) else tensor(a) if isinstance(a, (int, float, list, tuple)) or is_sym(a) else from_numpy(a)
    return t.to(dtype=dtype, device=device)


# ------------------------------------------------------------------ elementwise
RANK = {'b': 0, 'u': 1, 'i': 1, 'f': 2}


def _result(ts, scalars):
    d = None
    for t in sorted(ts, key=lambda t: t.ndim == 0):
        if d is None or RANK[t.dtype.kind] > RANK[d.kind]:
            d = t.dtype
        elif RANK[t.dtype.kind] == RANK[d.kind] and t.ndim and t.dtype.itemsize > d.itemsize:
            d = t.dtype
    for s in scalars:
        k = 'f' if isinstance(s, (float, Fraction, SymReal, SymRat)) else 'b' if isinstance(s, (bool, SymBool)) else 'i'
        if d is None or RANK[k] > RANK[d.kind]:
            d = {'f': float32, 'i': int64, 'b': bool_}[k]
    return d


def bshape(*ss):
    n = max(len(s) for s in ss)
    r = []
    for i in range(n):
        d = 1
        for s in ss:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise RuntimeError(f'The size of tensor a ({d}) must match the size of tensor b ({s[j]}) at non-singleton dimension {i}')
                d = s[j]
        r.append(d)
    return r


def _ew(f, args, dtype=None, out=None):
    ts = [a for a in args if isinstance(a, Tensor)]
    d = _result(ts, [a for a in args if not isinstance(a, Tensor)])
    sh = bshape(*[t.shape for t in ts])
    n = int(_prod(sh))
    cols = [[cast(v, d, a.dtype) if dtype is not bool_ or True else v for v in a.expand(*sh).flat()] if isinstance(a, Tensor)
            else [cast(a, d)] * n for a in args]
    dd = dtype or d
    r = make([f(*v) if not isg(*v) else GARBAGE for v in zip(*cols)], sh, dd, ts[0].device)
    if out is not None:
        return _out(out, r)
    return r


def _out(out, r):
    if tuple(out.shape) != tuple(r.shape):
        if bool(out.numel() != 0):
            warnings.warn('An output with one or more elements was resized')
        # the view would be resized: it then no longer is the region it was
        raise RuntimeError(f'output of shape {list(out.shape)} resized to {list(r.shape)}')
    if out.dtype.kind != 'f' and r.dtype.kind == 'f' or out.dtype.kind == 'b' and r.dtype.kind != 'b':
        raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {out.dtype}")
    return out.copy_(r)


def _inf(a):
    return isinstance(a, float) and math.isinf(a)


def _padd(a, b):
    if _inf(a) and _inf(b):
        return a + b
    return a if _inf(a) else b if _inf(b) else a + b


def _div(a, b):
    if not is_sym(b) and b == 0:
        raise Unmodelled('division by zero')
    if _inf(a):
        if is_sym(b):
            return a if bool(b > 0) else -a
        return a / b
    if isinstance(a, int) and isinstance(b, int):
        return Fraction(a, b)
    if not is_sym(a) and not is_sym(b):
        return a / b
    return a / b


def _floatify(*ts):
    return [t.to(float32) if isinstance(t, Tensor) and t.dtype.kind != 'f' else t for t in ts]


def add(a, b, alpha=1, out=None):
    return _ew(lambda x, y: _padd(x, y if not is_sym(alpha) and alpha == 1 else y * alpha), [a, b], out=out)


def sub(a, b, alpha=1, out=None):
    return _ew(lambda x, y: _padd(x, -y * alpha), [a, b], out=out)


def mul(a, b, out=None):
    return _ew(lambda x, y: x * y, [a, b], out=out)


def div(a, b, rounding_mode=None, out=None):
    if rounding_mode is not None:
        raise Unmodelled('div(rounding_mode)')
    return _ew(_div, _floatify(a, b), out=out)


true_divide = div


def _pow(x, y):
    if is_sym(y):
        raise Unmodelled('symbolic exponent')
    if isinstance(y, (int, float, Fraction)) and y == int(y) and y >= 0:
        r = 1
        for _ in range(int(y)):
            r = r * x
        return r
    if not is_sym(x):
        return x ** y
    raise Unmodelled('fractional power')


def pow(a, b, out=None):
    return _ew(_pow, [a, b], out=out)


def neg(a, out=None):
    return _ew(lambda x: -x, [a], out=out)


def abs(a, out=None):
    return _ew(lambda x: ite(x < 0, -x, x), [a], out=out)


def square(a):
    return _ew(lambda x: x * x, [a])


def _cmp(f):
    return lambda a, b, out=None: _ew(f, [a, b], bool_, out)


eq, ne = _cmp(lambda x, y: x == y), _cmp(lambda x, y: x != y)
gt, lt = _cmp(lambda x, y: x > y), _cmp(lambda x, y: x < y)
ge, le = _cmp(lambda x, y: x >= y), _cmp(lambda x, y: x <= y)
greater, less, greater_equal, less_equal = gt, lt, ge, le
maximum = lambda a, b, out=None: _ew(lambda x, y: ite(x > y, x, y), [a, b], out=out)
minimum = lambda a, b, out=None: _ew(lambda x, y: ite(x < y, x, y), [a, b], out=out)


def where(c, a, b, out=None):
    ts = [t for t in (a, b) if isinstance(t, Tensor)]
    d = _result(ts, [t for t in (a, b) if not isinstance(t, Tensor)])
    if c.dtype.kind != 'b':
        raise RuntimeError('where expected condition to be a boolean tensor')
    sh = bshape(c.shape, *[t.shape for t in ts])
    n = int(_prod(sh))
    col = lambda t: [cast(v, d, t.dtype) for v in t.expand(*sh).flat()] if isinstance(t, Tensor) else [cast(t, d)] * n
    r = make([GARBAGE if isg(k) else (x if k else y) if not is_sym(k) else ite(k, x, y) if not isg(x, y) else GARBAGE
              for k, x, y in zip(c.expand(*sh).flat(), col(a), col(b))], sh, d)
    return r if out is None else _out(out, r)


def clamp(a, min=None, max=None, out=None):
    def f(x):
        if min is not None and not (_inf(min)):
            x = ite(x < min, min, x)
        if max is not None and not (_inf(max)):
            x = ite(x > max, max, x)
        return x
    return _ew(f, [a], out=out)


clip = clamp


def uf(name, x):
    from . import snp
    if _inf(x) and name == 'exp':
        return 0.0 if x < 0 else x
    if not is_sym(x):
        x = float(x)
        if name == 'erf':
            return math.erf(x)
        if name == 'rsqrt':
            return 1 / math.sqrt(x)
        return getattr(math, name)(x)
    if name == 'rsqrt':
        return 1 / uf('sqrt', x)
    return snp.uf(name, x)


def sgm(x):
    return 1 / (1 + uf('exp', -x))


def _un(f):
    return lambda a, out=None: _ew(f, _floatify(a), out=out)


exp, tanh, sqrt, erf, log, sin, cos = (_un(lambda x, n=n: uf(n, x)) for n in ('exp', 'tanh', 'sqrt', 'erf', 'log', 'sin', 'cos'))
rsqrt = _un(lambda x: 1 / uf('sqrt', x) if is_sym(x) else 1 / math.sqrt(x))
sigmoid = _un(sgm)
relu = lambda a, out=None: _ew(lambda x: ite(x > 0, x, 0), [a], out=out)


def _trunc_div(x, y):
    q = _div(x, y)
    return q


def fmod(a, b, out=None):
    def f(x, y):
        if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)):
            ax, ay = ite(x < 0, -x, x), ite(y < 0, -y, y)
            r = ax % ay
            return ite(x < 0, -r, r)
        if is_sym(x) or is_sym(y):
            raise Unmodelled('fmod of reals')
        return math.fmod(x, y)
    return _ew(f, [a, b], out=out)


def remainder(a, b, out=None):
    def f(x, y):
        if (is_sym(x) or is_sym(y)) and not (isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt))):
            raise Unmodelled('remainder of reals')
        return x % y
    return _ew(f, [a, b], out=out)


# ------------------------------------------------------------------ reductions
def _red(t, dim, keepdim, f):
    n = t.ndim
    ax = list(range(n)) if dim is None or dim == () or dim == [] else sorted({_axis(int(d), n) for d in (dim if isinstance(dim, (tuple, list)) else [dim])})
    if dim is not None and isinstance(dim, (tuple, list)) and len(ax) != len(dim) and len(dim):
        raise RuntimeError('dim appears multiple times in the list of dims')
    sh = [int(s) for s in t.shape]
    vals = t.flat()
    osh = [1 if i in ax else s for i, s in enumerate(sh)]
    acc = {}
    idx = [0] * n
    for v in vals:
        key = tuple(0 if i in ax else k for i, k in enumerate(idx))
        acc.setdefault(key, []).append(v)
        for i in reversed(range(n)):
            idx[i] += 1
            if idx[i] < sh[i]:
                break
            idx[i] = 0
    keys = [()]
    for s in osh:
        keys = [k + (i,) for k in keys for i in range(s)]
    out = [f(acc.get(k, [])) for k in keys]
    fin = osh if keepdim else [s for i, s in enumerate(osh) if i not in ax]
    return out, fin


def _add(vs):
    r = 0
    for v in vs:
        r = _padd(r, v) if not isg(v, r) else GARBAGE
    return r


def _need_dim(dim, keepdim, what):
    if dim is None and keepdim is not None:
        raise TypeError(f'{what}() received an invalid combination of arguments - got (keepdim=bool)')


def mean(t, dim=None, keepdim=None):
    _need_dim(dim, keepdim, 'mean')
    if t.dtype.kind != 'f':
        raise RuntimeError('mean(): could not infer output dtype')
    v, s = _red(t, dim, keepdim, lambda vs: _div(_add(vs), len(vs)) if vs and not isg(_add(vs)) else GARBAGE)
    return make(v, s, t.dtype, t.device)


def sum_(t, dim=None, keepdim=None):
    _need_dim(dim, keepdim, 'sum')
    v, s = _red(t, dim, keepdim, _add)
    return make(v, s, t.dtype if t.dtype.kind == 'f' else int64, t.device)


def _best(up):
    def f(vs):
        if not vs:
            raise RuntimeError('Expected reduction dim to be specified for input.numel() == 0')
        r = vs[0]
        for v in vs[1:]:
            r = GARBAGE if isg(v, r) else v if _inf(r) else r if _inf(v) else ite((v > r) if up else (v < r), v, r)
        return r
    return f


def amax(t, dim=(), keepdim=False):
    v, s = _red(t, dim, keepdim, _best(True))
    return make(v, s, t.dtype, t.device)


def amin(t, dim=(), keepdim=False):
    v, s = _red(t, dim, keepdim, _best(False))
    return make(v, s, t.dtype, t.device)


def var(t, dim=None, unbiased=True, keepdim=False, correction=None):
    c = correction if correction is not None else 1 if unbiased else 0

    def f(vs):
        m = _div(_add(vs), len(vs))
        return _div(_add([(v - m) * (v - m) for v in vs]), len(vs) - c)
    v, s = _red(t, dim, keepdim, f)
    return make(v, s, t.dtype, t.device)


# ------------------------------------------------------------------ structure
def cat(ts, dim=0, out=None, axis=None):
    ts = list(ts)
    d = _axis(axis if axis is not None else dim, ts[0].ndim)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or any(i != d and bool(a != b) for i, (a, b) in enumerate(zip(t.shape, ts[0].shape))):
            raise RuntimeError(f'Sizes of tensors must match except in dimension {d}.')
    rt = _result(ts, [])
    outer = int(_prod(ts[0].shape[:d]))
    r = []
    fl = [[cast(v, rt, t.dtype) for v in t.flat()] for t in ts]
    for o in range(outer):
        for t, v in zip(ts, fl):
            k = len(v) // outer if outer else 0
            r += v[o * k:(o + 1) * k]
    sh = list(ts[0].shape)
    sh[d] = sum(int(t.shape[d]) for t in ts)
    r = make(r, sh, rt, ts[0].device)
    return r if out is None else _out(out, r)


concat = concatenate = cat


def stack(ts, dim=0):
    return cat([t.unsqueeze(dim) for t in ts], dim)


def permute(t, p):
    return t.permute(p)


def reshape(t, s):
    return t.reshape(s)


def transpose(t, a, b):
    return t.transpose(a, b)


def flatten(t, start_dim=0, end_dim=-1):
    return t.flatten(start_dim, end_dim)


def squeeze(t, dim=None):
    return t.squeeze(dim)


def unsqueeze(t, d):
    return t.unsqueeze(d)


def split(t, sizes, dim=0):
    d = _axis(dim, t.ndim)
    n = int(t.shape[d])
    if isinstance(sizes, int):
        sizes = [min(sizes, n - i) for i in range(0, n, sizes)]
    if sum(sizes) != n or any(s < 0 for s in sizes):
        raise RuntimeError(f"split_with_sizes expects split_sizes to sum exactly to {n} (input tensor's size at dimension {d}), but got split_sizes={sizes}")
    r, p = [], 0
    for s in sizes:
        r.append(t.narrow(d, p, s))
        p += s
    return tuple(r)


def chunk(t, k, dim=0):
    n = int(t.shape[_axis(dim, t.ndim)])
    return split(t, max(-(-n // k), 1), dim)


def index_select(t, dim, index):
    d = _axis(dim, t.ndim)
    if index.ndim > 1:
        raise IndexError('index_select(): Index is supposed to be a vector')
    if index.dtype.kind != 'i':
        raise RuntimeError('index_select(): Expected dtype int32 or int64 for index')
    n = int(t.shape[d])
    parts = []
    for i in index.flat():
        if is_sym(i):
            if bool(i < 0) or bool(i >= n):
                raise IndexError('index out of range in self')
            cols = [t.narrow(d, j, 1).flat() for j in range(n)]
            r = cols[-1]
            for j in reversed(range(n - 1)):
                r = [ite(i == j, a, b) for a, b in zip(cols[j], r)]
            parts.append(make(r, [1 if q == d else s for q, s in enumerate(t.shape)], t.dtype))
        else:
            if not 0 <= i < n:
                raise IndexError('index out of range in self')
            parts.append(t.narrow(d, int(i), 1))
    if not parts:
        return make([], [0 if q == d else s for q, s in enumerate(t.shape)], t.dtype)
    return cat(parts, d)


def gather(t, dim, index):
    d = _axis(dim, t.ndim)
    if index.ndim != t.ndim:
        raise RuntimeError('Index tensor must have the same number of dimensions as input tensor')
    for i in range(t.ndim):
        if i != d and bool(index.shape[i] > t.shape[i]):
            raise RuntimeError(f'Size does not match at dimension {i}')
    ish = [int(s) for s in index.shape]
    n = int(t.shape[d])
    keys = [()]
    for s in ish:
        keys = [k + (i,) for k in keys for i in range(s)]
    r = []
    for k, i in zip(keys, index.flat()):
        if bool(i < 0) or bool(i >= n):
            raise RuntimeError(f'index {i} is out of bounds for dimension {d} with size {n}')
        at = lambda j: t.st.read(t.off + sum(p * s for p, s in zip(k[:d] + (j,) + k[d + 1:], t.strides)), t.dtype.itemsize)
        v = at(n - 1 if is_sym(i) else int(i))
        if is_sym(i):
            for j in reversed(range(n - 1)):
                v = ite(i == j, at(j), v)
        r.append(v)
    return make(r, ish, t.dtype)


def triu(t, diagonal=0):
    h, w = t.shape[-2:]
    return make([v if (i % w) - (i // w) % h >= diagonal else 0 for i, v in enumerate(t.flat())], t.shape, t.dtype)


def tril(t, diagonal=0):
    h, w = t.shape[-2:]
    return make([v if (i % w) - (i // w) % h <= diagonal else 0 for i, v in enumerate(t.flat())], t.shape, t.dtype)


def argmax(t, dim=None, keepdim=False):
    return _argbest(t, dim, keepdim, lambda a, b: a > b)


def argmin(t, dim=None, keepdim=False):
    return _argbest(t, dim, keepdim, lambda a, b: a < b)


def _argbest(t, dim, keepdim, gt):
    def f(vs):
        if not vs:
            raise RuntimeError('argmax(): Expected reduction dim to be specified for input.numel() == 0')
        if isg(*vs):
            return GARBAGE
        b = 0
        for i in range(1, len(vs)):
            if bool(gt(vs[i], vs[b])):
                b = i
        return b
    if dim is None:
        r = make([f(t.flat())], [1] * t.ndim if keepdim else [], int64, t.device)
        return r
    v, s = _red(t, dim, keepdim, f)
    return make(v, s, int64, t.device)


DRAW = []               # what multinomial draws is decided by the harness: a function of the list of weights


def multinomial(t, num_samples, replacement=False, generator=None):
    if t.ndim != 1 or num_samples != 1 or not DRAW:
        raise Unmodelled('multinomial')
    return make([DRAW[-1](t.flat())], [1], int64, t.device)


def scatter(t, dim, index, src):
    return t.clone().scatter_(dim, index, src)


def topk(t, k, dim=-1, largest=True, sorted=True):
    d = _axis(dim, t.ndim)
    n = int(t.shape[d])
    if not 0 <= k <= n:
        raise RuntimeError('selected index k out of range')
    if not sorted:
        raise Unmodelled('topk(sorted=False)')
    sh = [int(s) for s in t.shape]
    inner = int(_prod(sh[d + 1:]))
    v = t.flat()
    osh = sh[:d] + [k] + sh[d + 1:]
    vals, idx = [None] * int(_prod(osh)), [None] * int(_prod(osh))
    for o in range(int(_prod(sh[:d]))):
        for i in range(inner):
            row = []
            for j in range(n):
                x, p = v[(o * n + j) * inner + i], 0
                while p < len(row) and bool(row[p][0] >= x if largest else row[p][0] <= x):
                    p += 1
                row.insert(p, (x, j))
            for j in range(k):
                vals[(o * k + j) * inner + i], idx[(o * k + j) * inner + i] = row[j]
    return make(vals, osh, t.dtype), make(idx, osh, int64)


def _dot(xs, ys):
    r = 0
    for x, y in zip(xs, ys):
        r = GARBAGE if isg(x, y, r) else r + x * y
    return r


def mm(a, b, out=None):
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError('self must be a matrix')
    return matmul(a, b, out=out)


def bmm(a, b, out=None):
    if a.ndim != 3 or b.ndim != 3:
        raise RuntimeError('batch1 must be a 3D tensor')
    return matmul(a, b, out=out)


def matmul(a, b, out=None):
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError('both arguments to matmul need to be at least 1D')
    if a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
        raise RuntimeError(f'expected m1 and m2 to have the same dtype, but got: {a.dtype} != {b.dtype}')
    va, vb = a.ndim == 1, b.ndim == 1
    a = a.unsqueeze(0) if va else a
    b = b.unsqueeze(1) if vb else b
    if bool(a.shape[-1] != b.shape[-2]):
        raise RuntimeError(f'mat1 and mat2 shapes cannot be multiplied ({a.shape} and {b.shape})')
    bs = bshape(a.shape[:-2], b.shape[:-2]) if a.ndim > 2 or b.ndim > 2 else []
    m, k, n = int(a.shape[-2]), int(a.shape[-1]), int(b.shape[-1])
    fa, fb = a.expand(*bs, m, k).flat(), b.expand(*bs, k, n).flat()
    r = []
    for q in range(int(_prod(bs))):
        for i in range(m):
            for j in range(n):
                r.append(_dot(fa[q * m * k + i * k:q * m * k + (i + 1) * k], fb[q * k * n + j:(q + 1) * k * n:n] if n else []))
    sh = list(bs) + ([] if va else [m]) + ([] if vb else [n])
    r = make(r, sh, a.dtype, a.device)
    return r if out is None else _out(out, r)


# ------------------------------------------------------------------ torch.nn.functional
def _pair(v, n=2):
    if isinstance(v, (tuple, list)):
        v = [_asint(x) for x in v]
        if len(v) == 1:
            v = v * n
        if len(v) != n:
            raise RuntimeError(f'expected a value of {n} numbers, got {v}')
        return v
    return [int(v)] * n


def _windows(h, w, k, s, p, d, ceil=False):
    o = []
    for n, kk, ss, pp, dd in zip((h, w), k, s, p, d):
        q = n + 2 * pp - dd * (kk - 1) - 1
        m = (-(-q // ss) if ceil else q // ss) + 1
        if ceil and (m - 1) * ss >= n + pp:
            m -= 1
        if m < 1:
            raise RuntimeError('Output size is too small')
        o.append(m)
    return o


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if isinstance(padding, str):
        raise Unmodelled('conv2d(padding=str)')
    if x.ndim != 4 or w.ndim != 4:
        raise RuntimeError('Expected 3D (unbatched) or 4D (batched) input to conv2d')
    n, c, h, ww = [int(v) for v in x.shape]
    m, cg, kh, kw = [int(v) for v in w.shape]
    s, p, d = _pair(stride), _pair(padding), _pair(dilation)
    if min(s) <= 0 or min(p) < 0 or min(d) <= 0:
        raise RuntimeError('negative padding is not supported' if min(p) < 0 else 'non-positive stride or dilation is not supported')
    if cg * groups != c or m % groups:
        raise RuntimeError(f'Given groups={groups}, weight of size {list(w.shape)}, expected input {list(x.shape)} to have {cg * groups} channels')
    if bias is not None and (bias.ndim != 1 or bias.shape[0] != m):
        raise RuntimeError('expected bias to be 1-dimensional')
    oh, ow = _windows(h, ww, (kh, kw), s, p, d)
    X, W, B = x.flat(), w.flat(), bias.flat() if bias is not None else None
    r = []
    for b in range(n):
        for o in range(m):
            g = o // (m // groups)
            for i in range(oh):
                for j in range(ow):
                    acc = 0
                    for cc in range(cg):
                        for u in range(kh):
                            for v in range(kw):
                                y, z = i * s[0] - p[0] + u * d[0], j * s[1] - p[1] + v * d[1]
                                if 0 <= y < h and 0 <= z < ww:
                                    e = X[((b * c + g * cg + cc) * h + y) * ww + z]
                                    f = W[((o * cg + cc) * kh + u) * kw + v]
                                    acc = GARBAGE if isg(e, f, acc) else acc + e * f
                    r.append(acc if B is None else acc + B[o])
    return make(r, [n, m, oh, ow], x.dtype, x.device)


def _pool(x, k, stride, padding, dilation, ceil_mode, f):
    k = _pair(k)
    s = _pair(stride) if stride is not None and stride != [] else k
    p, d = _pair(padding), _pair(dilation)
    if any(q > kk // 2 for q, kk in zip(p, k)):
        raise RuntimeError('pad should be at most half of effective kernel size')
    n, c, h, w = [int(v) for v in x.shape]
    oh, ow = _windows(h, w, k, s, p, d, ceil_mode)
    X = x.flat()
    r = []
    for b in range(n * c):
        for i in range(oh):
            for j in range(ow):
                vs = []
                for u in range(k[0]):
                    for v in range(k[1]):
                        y, z = i * s[0] - p[0] + u * d[0], j * s[1] - p[1] + v * d[1]
                        vs.append(X[(b * h + y) * w + z] if 0 <= y < h and 0 <= z < w else None)
                r.append(f(vs))
    return make(r, [n, c, oh, ow], x.dtype, x.device)


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False):
    return _pool(x, kernel_size, stride, padding, dilation, ceil_mode, lambda vs: _best(True)([v for v in vs if v is not None]))


def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    if ceil_mode:
        raise Unmodelled('avg_pool2d(ceil_mode)')

    def f(vs):
        r = [v for v in vs if v is not None]
        return _div(_add(r), divisor_override or (len(vs) if count_include_pad else len(r)))
    return _pool(x, kernel_size, stride, padding, 1, ceil_mode, f)


def adaptive_avg_pool2d(x, size):
    if tuple(_pair(size)) != (1, 1):
        raise Unmodelled('adaptive_avg_pool2d')
    return mean(x, (-2, -1), True)


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    if training:
        raise Unmodelled('batch_norm(training)')
    c = int(x.shape[1])
    for t in (running_mean, running_var, weight, bias):
        if t is not None and int(t.numel()) != c:
            raise RuntimeError(f'running_mean should contain {c} elements not {t.numel()}')
    v = lambda t: t.reshape([1, c] + [1] * (x.ndim - 2))
    y = (x - v(running_mean)) / sqrt(v(running_var) + eps)
    y = y * v(weight) if weight is not None else y
    return y + v(bias) if bias is not None else y


def leaky_relu(x, negative_slope=0.01):
    return _ew(lambda v: ite(v > 0, v, v * negative_slope), [x])


def silu(x):
    return x * sigmoid(x)


def gelu(x, approximate='none'):
    if approximate != 'none':
        raise Unmodelled('gelu(approximate)')
    return x * 0.5 * (1 + erf(x * 0.7071067811865476))


def softmax(x, dim=None, dtype=None):
    # exp(x - max) / sum exp(x - max) = exp(x) / sum exp(x)
    e = exp(x)
    return e / sum_(e, dim, True)


def layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    d = tuple(range(-len(normalized_shape), 0))
    y = (x - mean(x, d, True)) / sqrt(var(x, d, unbiased=False, keepdim=True) + eps)
    y = y * weight if weight is not None else y
    return y + bias if bias is not None else y


def linear(x, w, bias=None):
    y = matmul(x, w.T)
    return y if bias is None else y + bias


def pad(x, p, mode='constant', value=None):
    p = [_asint(v) for v in p]
    if len(p) % 2 or len(p) // 2 > x.ndim:
        raise RuntimeError('Padding length must be divisible by two and at most twice the number of dimensions of the input')
    if mode != 'constant' and not (x.ndim in (3, 4, 5) and len(p) == 2 * (x.ndim - 2) or x.ndim in (2, 3, 4) and len(p) == 2 * (x.ndim - 1)):
        raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    t = x
    for i in range(len(p) // 2):
        d = x.ndim - 1 - i
        a, b = p[2 * i], p[2 * i + 1]
        n = int(t.shape[d])
        if n + a + b < 0:
            raise RuntimeError('resulting in a negative output size')
        cols = []
        for j in range(-a, n + b):
            if 0 <= j < n:
                cols.append(t.narrow(d, j, 1))
            elif mode == 'constant':
                cols.append(full([1 if q == d else int(s) for q, s in enumerate(t.shape)], cast(0 if value is None else value, t.dtype), t.dtype))
            elif mode == 'replicate':
                cols.append(t.narrow(d, min(max(j, 0), n - 1), 1))
            elif mode == 'reflect':
                if max(a, b) >= n:
                    raise RuntimeError('Padding size should be less than the corresponding input dimension')
                cols.append(t.narrow(d, -j if j < 0 else 2 * (n - 1) - j, 1))
            elif mode == 'circular':
                cols.append(t.narrow(d, j % n, 1))
            else:
                raise NotImplementedError('Unrecognised padding mode ' + str(mode))
        t = cat(cols, d) if cols else make([], [0 if q == d else s for q, s in enumerate(t.shape)], t.dtype)
    return t


def interpolate(x, size=None, scale_factor=None, mode='nearest', align_corners=None, **k):
    if mode not in ('nearest', 'bilinear') or scale_factor is not None or k:
        raise Unmodelled('interpolate')
    if mode == 'nearest' and align_corners is not None:
        raise ValueError('align_corners option can only be set with the interpolating modes')
    if mode == 'bilinear':
        if x.dim() != 4 or len(size) != 2:
            raise NotImplementedError('bilinear interpolation takes 4-D tensors')
        import numpy as _np
        a = _np.empty(_prod([int(v) for v in x.shape]), object)
        a[:] = x.flat()
        a = a.reshape([int(v) for v in x.shape])
        for d, s in ((2, _asint(size[0])), (3, _asint(size[1]))):
            n, rows = a.shape[d], []
            for j in range(s):
                if align_corners:
                    f = Fraction(j * (n - 1), s - 1) if s > 1 else Fraction(0)
                else:
                    f = max(Fraction(2 * j + 1, 2) * Fraction(n, s) - Fraction(1, 2), Fraction(0))
                lo = min(f.numerator // f.denominator, n - 1)
                hi, w = min(lo + 1, n - 1), f - lo
                rows.append(_np.take(a, lo, d) if not w else _np.take(a, lo, d) * (1 - w) + _np.take(a, hi, d) * w)
            a = _np.stack(rows, d)
        return make(list(a.reshape(-1)), list(a.shape), x.dtype)
    t = x
    for i, s in enumerate(size):
        d, n, s = 2 + i, int(t.shape[2 + i]), _asint(s)
        t = index_select(t, d, make([min(j * n // s, n - 1) for j in range(s)], [s], int64))
    return t


# ------------------------------------------------------------------ modules
class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unmodelled(f'{self.__name__}.{n}')


module = _Mod('torch')
functional = _Mod('torch.nn.functional')
nn = _Mod('torch.nn')
_HERE = dict(globals())
for _n in ('conv2d', 'max_pool2d', 'avg_pool2d', 'adaptive_avg_pool2d', 'batch_norm', 'leaky_relu', 'silu', 'gelu', 'softmax',
           'layer_norm', 'linear', 'pad', 'interpolate', 'relu'):
    setattr(functional, _n, _HERE[_n])
for _n, _v in _HERE.items():
    if not _n.startswith('_') and (callable(_v) or isinstance(_v, dt)) and not isinstance(_v, types.ModuleType) and _n not in ('ite', 'is_sym', 'dt', 'uf', 'sgm', 'isg'):
        setattr(module, _n, _v)
module.bool, module.float, module.int, module.sum, module.dtype, module.Size = bool_, float32, int32, sum_, dt, Size
module.Tensor, module.nn, module.device = Tensor, nn, str
nn.functional = functional
module.__path__ = []


class _NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


module.no_grad = module.inference_mode = _NoGrad


# ------------------------------------------------------------------ safetensors, transformers
FILES = {}              # path -> {name: tensor}
TOKENIZERS = {}         # name or folder -> tokenizer


class safe_open:
    def __init__(self, path, framework='pt', device='cpu'):
        if path not in FILES:
            raise FileNotFoundError(path)
        self.d = FILES[path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(self.d)

    def get_tensor(self, n):
        return self.d[n].clone()


safetensors = _Mod('safetensors')
safetensors.safe_open = safe_open
transformers = _Mod('transformers')


class AutoTokenizer:
    @staticmethod
    def from_pretrained(name, **k):
        if name not in TOKENIZERS:
            raise OSError(name)
        return TOKENIZERS[name]


transformers.AutoTokenizer = AutoTokenizer
