"""Byte buffers with symbolic content: what bytearray, bytes literals, struct, io.BytesIO and open(.., 'wb') become in a shadow module.
A byte is an int or an SByte (byte number idx of the encoding of a symbolic value)."""
import builtins as _b
import io as _io
import struct as _struct
import types
from . import core
from .core import Unmodelled, is_sym

FILES = {}


class SByte:
    """byte idx (counted from the least significant) of value encoded as kind ('i' signed, 'u' unsigned, 'f' float) in width bytes"""
    __slots__ = ('v', 'kind', 'width', 'idx')

    def __init__(self, v, kind, width, idx):
        self.v, self.kind, self.width, self.idx = v, kind, width, idx

    def _sym_eval(self, m):
        return ('byte', self.idx, self.width, self.kind, core.eval_sym(self.v, m))

    def num(self):
        """its value 0..255 as an integer term"""
        if self.kind == 'f':
            raise Unmodelled('a single byte of a float')
        return core.pymod(self.v // (1 << (8 * self.idx)), 256)


def encode(v, kind, width, big=False):
    """bytes of a symbolic number, refused like int.to_bytes and struct do"""
    if kind in 'iu':
        lo, hi = (-(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1) if kind == 'i' else (0, (1 << (8 * width)) - 1)
        if not bool(core.sand(v >= lo, v <= hi)):
            raise OverflowError('int too big to convert')
    r = [SByte(v, kind, width, i) for i in range(width)]
    return r[::-1] if big else r


def elems(x):
    from .fonnx import SymBytes
    if isinstance(x, sbytes):
        return list(x.e)
    if isinstance(x, SymBytes):
        k = {'f': 'f', 'i': 'i', 'u': 'u', 'b': 'u'}[x.dtype.kind]
        out = []
        for v in x.elems:
            if is_sym(v):
                out += [SByte(v, k, x.dtype.itemsize, i) for i in range(x.dtype.itemsize)]
            else:
                import numpy as np
                out += list(np.array([v]).astype(x.dtype).tobytes())
        return out
    if isinstance(x, SByte) or (is_sym(x)):
        raise TypeError("can't concat int to bytearray")
    if isinstance(x, (_b.bytes, _b.bytearray, memoryview)):
        return list(_b.bytes(x))
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        return [y for y in x]
    if hasattr(x, 'tobytes'):
        return elems(x.tobytes())
    raise TypeError(f"can't concat {type(x).__name__} to bytearray")


class sbytes:
    """bytes or bytearray with symbolic content"""

    def __init__(self, e=()):
        self.e = list(e)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __iter__(self):
        return iter(self.e)

    def __getitem__(self, k):
        return sbytes(self.e[k]) if isinstance(k, slice) else self.e[k]

    def __setitem__(self, k, v):
        self.e[k] = elems(v) if isinstance(k, slice) else v

    def __add__(self, o):
        return sbytes(self.e + elems(o))

    def __radd__(self, o):
        return sbytes(elems(o) + self.e)

    def __mul__(self, n):
        return sbytes(self.e * n)

    def extend(self, o):
        self.e += elems(o)

    def append(self, v):
        if is_sym(v):
            v = encode(v, 'u', 1)[0]
        self.e.append(v)

    def join(self, parts):
        r = []
        for i, p in enumerate(parts):
            if i:
                r += self.e
            r += elems(p)
        return sbytes(r)

    def hex(self):
        raise Unmodelled('hex of symbolic bytes')

    def __deepcopy__(self, memo):
        return sbytes(self.e)

    def _sym_eval(self, m):
        return [core.eval_sym(x, m) if isinstance(x, SByte) else x for x in self.e]


class sbytearray_(sbytes):
    def __iadd__(self, o):
        self.e += elems(o)
        return self


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (sbytearray_, _b.bytearray))

    def __call__(cls, src=b'', *a):
        if isinstance(src, _b.int) and not isinstance(src, _b.bool):
            return sbytearray_([0] * src)
        if isinstance(src, _b.str):
            return sbytearray_(_b.bytes(src, *a))
        return sbytearray_(elems(src))

    def __eq__(cls, o):
        return o is _b.bytearray or o is cls

    def __hash__(cls):
        return hash(_b.bytearray)


class sbytearray(metaclass=_ArrMeta):
    pass


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        from .fonnx import SymBytes
        return isinstance(x, _b.bytes) or isinstance(x, SymBytes) or (isinstance(x, sbytes) and not isinstance(x, sbytearray_))

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, _b.bytes)

    def __call__(cls, src=b'', *a, **k):
        if isinstance(src, sbytes):
            return sbytes(src.e)
        if isinstance(src, (list, tuple)) and _b.any(isinstance(x, SByte) or is_sym(x) for x in src):
            r = sbytes()
            for x in src:
                r.append(x)
            return r
        from .fonnx import SymBytes
        if isinstance(src, SymBytes):
            return src
        return _b.bytes(src, *a, **k)

    def __eq__(cls, o):
        return o is _b.bytes or o is cls

    def __hash__(cls):
        return hash(_b.bytes)

    def __or__(cls, o):
        return _b.bytes | o


class sbytes_type(metaclass=_BytesMeta):
    fromhex = staticmethod(_b.bytes.fromhex)


class lit(_b.bytes):
    """a bytes literal"""

    def join(self, parts):
        parts = list(parts)
        if _b.all(isinstance(p, (_b.bytes, _b.bytearray)) for p in parts):
            return lit(_b.bytes.join(self, parts))
        return sbytes(self).join(parts)

    def __add__(self, o):
        if isinstance(o, (_b.bytes, _b.bytearray)):
            return lit(_b.bytes.__add__(self, o))
        return sbytes(self) + o

    def __hash__(self):
        return _b.bytes.__hash__(self)

    def __eq__(self, o):
        return _b.bytes.__eq__(self, o)


# ------------------------------------------------------------------ struct
class _Struct(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_struct, n)

    @staticmethod
    def pack(fmt, *vals):
        if isinstance(fmt, _b.bytes):
            fmt = fmt.decode()
        vals = [v.item() if hasattr(v, 'item') and not is_sym(v) else v for v in vals]
        if not _b.any(is_sym(v) for v in vals):
            return lit(_struct.pack(fmt, *vals))
        pre, body = ('@', fmt) if fmt[:1] not in '@=<>!' else (fmt[0], fmt[1:])
        codes, n = [], ''
        for c in body:
            if c.isdigit():
                n += c
            elif c != ' ':
                codes += [(c, int(n or 1))] if c in 'sp' else [(c, 1)] * int(n or 1)
                n = ''
        out, sofar, it = [], pre, iter(vals)
        for c, k in codes:
            sofar += f'{k}{c}' if c in 'sp' else c
            end = _struct.calcsize(sofar)
            w = _struct.calcsize('=' + (f'{k}{c}' if c in 'sp' else c)) if pre != '@' else _struct.calcsize('@' + (f'{k}{c}' if c in 'sp' else c))
            out += [0] * (end - w - len(out))
            if c == 'x':
                out += [0]
                continue
            v = next(it)
            if not is_sym(v):
                out += list(_struct.pack(('<' if pre == '@' else pre) + (f'{k}{c}' if c in 'sp' else c), v)) if pre != '@' else list(_struct.pack('@' + (f'{k}{c}' if c in 'sp' else c), v))
                continue
            kind = 'f' if c in 'efd' else 'i' if c in 'bhilqn' else 'u' if c in 'BHILQNP' else None
            if kind is None:
                raise Unmodelled(f'struct code {c}')
            if kind != 'f' and not isinstance(v, core.SymInt):
                raise _struct.error('required argument is not an integer')
            try:
                out += encode(v, kind, w, pre in '>!')
            except OverflowError:
                raise _struct.error('argument out of range')
        return sbytes(out)

    @staticmethod
    def Struct(fmt):
        return types.SimpleNamespace(pack=lambda *v: sstruct.pack(fmt, *v), size=_struct.calcsize(fmt), format=fmt)


sstruct = _Struct('struct')


# ------------------------------------------------------------------ files
class BinFile:
    def __init__(self, path=None):
        self.path, self.e, self.closed = path, [], False

    def write(self, x):
        e = elems(x)
        self.e += e
        return len(e)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def tell(self):
        return len(self.e)

    def flush(self):
        pass

    def getvalue(self):
        return sbytes(self.e)

    getbuffer = getvalue

    def close(self):
        if not self.closed and self.path is not None:
            self.closed = True
            FILES[_b.str(self.path)] = list(self.e)
            with open(self.path, 'wb') as f:
                f.write(_b.bytes(x if isinstance(x, _b.int) else 0 for x in self.e))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sopen(path, mode='r', *a, **k):
    if 'b' in mode and 'w' in mode:
        return BinFile(path)
    return _b.open(path, mode, *a, **k)


class _Io(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_io, n)

    @staticmethod
    def BytesIO(initial=b''):
        f = BinFile()
        f.write(initial)
        return f


sio = _Io('io')


# ------------------------------------------------------------------ reading back (used by checks)
class Truncated(Exception):
    pass


class Reader:
    """decodes little-endian data; E decides between symbolic and real files"""

    def __init__(self, data):
        self.d, self.p = list(data), 0

    def take(self, n):
        if self.p + n > len(self.d):
            raise Truncated()
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def end(self):
        return self.p == len(self.d)

    def int(self, n=4, signed=True):
        b = self.take(n)
        if _b.all(isinstance(x, _b.int) for x in b):
            return _b.int.from_bytes(_b.bytes(b), 'little', signed=signed)
        x = b[0]
        if _b.all(isinstance(y, SByte) and y.v is x.v and y.width == n and y.idx == i for i, y in enumerate(b)) and x.kind == ('i' if signed else 'u'):
            return x.v
        if _b.any(isinstance(y, SByte) and y.kind == 'f' for y in b):
            return None
        v = 0
        for i, y in enumerate(b):
            v = v + (y.num() if isinstance(y, SByte) else y) * (1 << (8 * i))
        return core.ite(v >= (1 << (8 * n - 1)), v - (1 << (8 * n)), v) if signed else v

    def float(self, n=4):
        b = self.take(n)
        if _b.all(isinstance(x, _b.int) for x in b):
            import numpy as np
            return _b.float(np.frombuffer(_b.bytes(b), {2: np.float16, 4: np.float32, 8: np.float64}[n])[0])
        x = b[0]
        if _b.all(isinstance(y, SByte) and y.v is x.v and y.width == n and y.idx == i and y.kind == 'f' for i, y in enumerate(b)):
            return x.v
        return None

    def text(self):
        s = []
        while True:
            c = self.take(1)[0]
            if not isinstance(c, _b.int):
                return None
            if c == 0:
                return _b.bytes(s)
            s.append(c)
