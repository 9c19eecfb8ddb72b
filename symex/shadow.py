"""Load the unmodified sources of /repo into shadow modules whose builtins, numpy,
math, ... understand symbolic values.  Nothing is copied or cached: the source is
read from /repo on every run."""
import ast
import builtins as _b
import importlib
import math as _math
import os
import sys
import types
from fractions import Fraction
import numpy as np
from . import core, snp, sbytes
from .core import (Sym, SymBool, SymInt, SymRat, SymReal, is_sym, ite, Name)

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------ shadow builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymInt):
            return x.dt is None
        return _b.isinstance(x, _b.int)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, _b.int)

    def __call__(cls, *a, **k):
        if not a:
            return 0
        x = a[0]
        if isinstance(x, snp.ndarray) and len(a) == 1:
            x = x.item()
        if isinstance(x, SymInt):
            return x.py()
        if isinstance(x, SymBool):
            return x.i()
        if isinstance(x, (SymRat, SymReal)):
            return x.trunc()
        if isinstance(x, SymStr):
            return x.to_int()
        if _b.isinstance(x, _b.str) and _b.len(x) == 1 and core.untoken(x) is not None and isinstance(core.untoken(x)[0], SymInt):
            return core.untoken(x)[0].py()
        return _b.int(*a, **k)

    def __eq__(cls, o):
        return o is _b.int or o is cls

    def __hash__(cls):
        return hash(_b.int)

    def __or__(cls, o):
        return _b.int | o

    def __ror__(cls, o):
        return o | _b.int


class sint(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(*a, **k):
        return _b.int.from_bytes(*a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymRat, SymReal)) or _b.isinstance(x, _b.float)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, _b.float)

    def __call__(cls, *a):
        if not a:
            return 0.0
        x = a[0]
        if isinstance(x, snp.ndarray):
            x = x.item()
        if isinstance(x, (SymInt, SymBool)):
            return SymRat.lift(x)
        if isinstance(x, (SymRat, SymReal)):
            return x
        return _b.float(*a)

    def __eq__(cls, o):
        return o is _b.float or o is cls

    def __hash__(cls):
        return hash(_b.float)

    def __or__(cls, o):
        return _b.float | o

    def __ror__(cls, o):
        return o | _b.float


class sfloat(metaclass=_FloatMeta):
    @staticmethod
    def fromhex(s):
        return _b.float.fromhex(s)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymBool) or _b.isinstance(x, _b.bool)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        if a and isinstance(a[0], (SymInt, SymRat, SymReal)):
            return a[0] != 0
        return _b.bool(*a)

    def __eq__(cls, o):
        return o is _b.bool or o is cls

    def __hash__(cls):
        return hash(_b.bool)

    def __or__(cls, o):
        return _b.bool | o


class sbool(metaclass=_BoolMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymStr) or _b.isinstance(x, _b.str)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, _b.str)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], (SymStr, Name)):
            return a[0]
        if a and isinstance(a[0], SymInt):
            return SymIntStr(a[0]) if a[0].lo is not None and a[0].lo >= 0 else _b.str(a[0])
        return _b.str(*a, **k)

    def __eq__(cls, o):
        return o is _b.str or o is cls

    def __hash__(cls):
        return hash(_b.str)

    def __or__(cls, o):
        return _b.str | o

    def __ror__(cls, o):
        return o | _b.str


class sstr(metaclass=_StrMeta):
    maketrans = staticmethod(_b.str.maketrans)
    join = staticmethod(_b.str.join)


def _token_int(x):
    """the symbolic integer a text of optional sign and one number token stands for, or None"""
    if not _b.isinstance(x, _b.str):
        return None
    neg = x[:1] == '-'
    t = core.untoken(x[1:] if neg else x)
    if t is None or not isinstance(t[0], SymInt):
        return None
    return -t[0].py() if neg else t[0].py()


def round_f32(v):
    """the float32 nearest to the integer v (|v| < 2^31), as an integer"""
    a = ite(v < 0, -v, v)
    r = a
    for e in range(24, 31):
        u = 2 ** (e - 23)
        q, m = a // u, a % u
        up = core.sor(m > u // 2, core.sand(m == u // 2, q % 2 == 1))
        r = ite(core.sand(a >= 2 ** e, a < 2 ** (e + 1)), (q + ite(up, 1, 0)) * u, r)
    return ite(v < 0, -r, r)


class _ScalarMeta(type):
    def __call__(cls, x=0, *a):
        v = _token_int(x)
        if v is None:
            v = x.item() if isinstance(x, snp.ndarray) else x
            if not is_sym(v):
                return cls.np_type(v, *a)
        dt = np.dtype(cls.np_type)
        if dt.kind == 'f':
            if dt.itemsize == 4 and isinstance(v, SymInt):
                v = round_f32(v)
            return SymRat.lift(v)
        if isinstance(v, SymInt):
            if bool(core.sor(v < -2 ** 31, v > 2 ** 31 - 1)) and dt.itemsize == 4:
                raise OverflowError('Python integer out of bounds for int32')
            return v.py()
        return cls.np_type(v, *a)

    def __eq__(cls, o):
        return o is cls.np_type or o is cls

    def __hash__(cls):
        return hash(cls.np_type)


def _scalar(t):
    return _ScalarMeta('s' + t.__name__, (), {'np_type': t, 'dtype': np.dtype(t)})


class _CliNumpy(types.ModuleType):
    """numpy as the command line sees it: its scalar types read symbolic texts"""
    int32, float32, int64, float64 = (_scalar(t) for t in (np.int32, np.float32, np.int64, np.float64))

    def __getattr__(self, n):
        return getattr(snp.module, n)


CLI_NUMPY = _CliNumpy('numpy')


class SymIntStr(str):
    """str(n) of a symbolic non-negative integer: opaque text that remembers n"""
    def __new__(cls, v):
        o = str.__new__(cls, core.token(v, ''))
        o.v = v
        return o

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if isinstance(o, SymIntStr):
            return bool(self.v == o.v)
        if _b.isinstance(o, str) and str.isdigit(o) and str.__str__(_b.int(o).__str__()) == o:
            return bool(self.v == _b.int(o))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def isnumeric(self):
        return True

    isdigit = isdecimal = isnumeric

    def _sym_eval(self, m):
        return str(core.eval_sym(self.v, m))


def _pair(args, kw, up):
    key = kw.get('key')
    if len(args) == 1:
        it = args[0]
        if isinstance(it, snp.ndarray):
            it._materialise()
        items = list(it)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError('max()/min() iterable argument is empty' if False else
                             ('max() iterable argument is empty' if up else 'min() iterable argument is empty'))
    else:
        items = list(args)
    kf = key or (lambda v: v)
    best = items[0]
    bk = kf(best)
    for v in items[1:]:
        k = kf(v)
        if isinstance(k, snp.ndarray) or isinstance(bk, snp.ndarray):
            c = (k > bk) if up else (k < bk)
            c = bool(c)
        elif isinstance(k, tuple) or isinstance(k, list):
            c = bool(k > bk) if up else bool(k < bk)
        else:
            c = (k > bk) if up else (k < bk)
        if isinstance(c, SymBool):
            if key is None or v is k:
                best = ite(c, v, best)
                bk = best if key is None else ite(c, k, bk)
            elif isinstance(v, (int, Sym)) and isinstance(best, (int, Sym)):
                best = ite(c, v, best)
                bk = ite(c, k, bk)
            else:
                if bool(c):
                    best, bk = v, k
        elif c:
            best, bk = v, k
    return best


def smax(*a, **k):
    return _pair(a, k, True)


def smin(*a, **k):
    return _pair(a, k, False)


def ssum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def sabs(x):
    return _b.abs(x)


def sround(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return _b.round(x, n) if n is not None else _b.round(x)


def slen(x):
    if isinstance(x, SymStr):
        return len(x.chars)
    return _b.len(x)


def spow(a, b, *m):
    return _b.pow(a, b, *m)


def sdivmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return _b.divmod(a, b)


def stype(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return _b.int if x.dt is None else x.dt.type
        if isinstance(x, SymBool):
            return _b.bool
        if isinstance(x, (SymRat, SymReal)):
            return _b.float
        if isinstance(x, (Name, SymIntStr, SymStr)):
            return _b.str
        return _b.type(x)
    return _b.type(*a, **k)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        return stype(*a, **k)

    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.type)

    def __eq__(cls, o):
        return o is _b.type or o is cls

    def __hash__(cls):
        return hash(_b.type)


class stype_cls(metaclass=_TypeMeta):
    pass


def sall(it):
    r = True
    for v in it:
        if isinstance(v, SymBool):
            r = core.sand(r, v)
        elif not v:
            return False
    return r if not isinstance(r, SymBool) else bool(r)


def sany(it):
    r = False
    for v in it:
        if isinstance(v, SymBool):
            r = core.sor(r, v)
        elif v:
            return True
    return r if not isinstance(r, SymBool) else bool(r)


# isinstance with a union type (X | Y) containing shadow classes
def sisinstance(x, t):
    if t is _b.int:
        t = sint
    elif t is _b.float:
        t = sfloat
    elif t is _b.str:
        t = sstr
    elif isinstance(t, tuple):
        return _b.any(sisinstance(x, u) for u in t)
    elif isinstance(t, types.UnionType):
        return _b.any(sisinstance(x, u) for u in t.__args__)
    elif t is np.integer and isinstance(x, SymInt):
        return x.dt is not None
    elif isinstance(t, _b.type) and issubclass(t, np.generic) and isinstance(x, SymInt):
        return x.dt is not None and issubclass(x.dt.type, t)
    return _b.isinstance(x, t)


def sprint(*a, **k):
    return None


# ------------------------------------------------------------------ symbolic strings
class SymStr:
    """Text of concrete length whose characters may be symbolic code points (SymInt)."""

    def __init__(self, chars):
        self.chars = [ord(c) if isinstance(c, str) else c for c in chars]

    @staticmethod
    def mk(chars):
        s = SymStr(chars)
        if not _b.any(is_sym(c) for c in s.chars):
            return ''.join(chr(c) for c in s.chars)
        return s

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield SymStr.mk([c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr.mk(self.chars[k])
        return SymStr.mk([self.chars[k]])

    @staticmethod
    def _cs(o):
        if isinstance(o, SymStr):
            return o.chars
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def _eqat(self, i, pat):
        return core.sand(*[self.chars[i + j] == p for j, p in enumerate(pat)])

    def __eq__(self, o):
        cs = self._cs(o)
        if cs is None or len(cs) != len(self.chars):
            return False
        return core.sand(*[a == b for a, b in zip(self.chars, cs)])

    def __ne__(self, o):
        return core.snot(self.__eq__(o))

    def __hash__(self):
        return 13

    def __contains__(self, pat):
        p = self._cs(pat)
        return bool(core.sor(*[self._eqat(i, p) for i in range(len(self.chars) - len(p) + 1)]))

    def find(self, pat, start=0):
        p = self._cs(pat)
        for i in range(start, len(self.chars) - len(p) + 1):
            if bool(self._eqat(i, p)):
                return i
        return -1

    def index(self, pat):
        i = self.find(pat)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rfind(self, pat):
        p = self._cs(pat)
        for i in range(len(self.chars) - len(p), -1, -1):
            if bool(self._eqat(i, p)):
                return i
        return -1

    def count(self, pat):
        p = self._cs(pat)
        n = i = 0
        while i + len(p) <= len(self.chars):
            if bool(self._eqat(i, p)):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def startswith(self, pat):
        if isinstance(pat, tuple):
            return _b.any(self.startswith(p) for p in pat)
        p = self._cs(pat)
        return len(p) <= len(self.chars) and bool(self._eqat(0, p))

    def endswith(self, pat):
        if isinstance(pat, tuple):
            return _b.any(self.endswith(p) for p in pat)
        p = self._cs(pat)
        return len(p) <= len(self.chars) and bool(self._eqat(len(self.chars) - len(p), p))

    def replace(self, old, new, cnt=-1):
        p, n = self._cs(old), self._cs(new)
        out, i = [], 0
        if len(p) == 1 and len(n) == 1 and cnt < 0:
            return SymStr.mk([ite(c == p[0], n[0], c) if is_sym(c) else (n[0] if c == p[0] else c) for c in self.chars])
        while i < len(self.chars):
            if cnt != 0 and i + len(p) <= len(self.chars) and bool(self._eqat(i, p)):
                out.extend(n)
                i += len(p)
                cnt -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return SymStr.mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            for c in self.chars:
                if bool(core.sor(*[c == w for w in (32, 9, 10, 11, 12, 13)])):
                    if cur:
                        out.append(SymStr.mk(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(SymStr.mk(cur))
            return out
        p = self._cs(sep)
        out, cur, i = [], [], 0
        while i < len(self.chars):
            if maxsplit != 0 and i + len(p) <= len(self.chars) and bool(self._eqat(i, p)):
                out.append(SymStr.mk(cur))
                cur = []
                i += len(p)
                maxsplit -= 1
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(SymStr.mk(cur))
        return out

    def rsplit(self, sep, maxsplit=-1):
        parts = self.split(sep)
        if maxsplit < 0 or len(parts) <= maxsplit + 1:
            return parts
        head = parts[0]
        k = len(parts) - maxsplit
        for q in parts[1:k]:
            head = head + sep + q
        return [head] + parts[k:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def strip(self, chars=None):
        w = [ord(c) for c in (chars or ' \t\n\r\v\f')]
        a, b = 0, len(self.chars)
        while a < b and bool(core.sor(*[self.chars[a] == x for x in w])):
            a += 1
        while b > a and bool(core.sor(*[self.chars[b - 1] == x for x in w])):
            b -= 1
        return SymStr.mk(self.chars[a:b])

    def lower(self):
        return SymStr.mk([ite(core.sand(c >= 65, c <= 90), c + 32, c) if is_sym(c) else ord(chr(c).lower()) for c in self.chars])

    def isnumeric(self):
        return len(self.chars) > 0 and bool(core.sand(*[core.sand(c >= 48, c <= 57) for c in self.chars]))

    isdigit = isdecimal = isnumeric

    def __add__(self, o):
        return SymStr.mk(self.chars + self._cs(o))

    def __radd__(self, o):
        return SymStr.mk(self._cs(o) + self.chars)

    def join(self, it):
        out = []
        for i, v in enumerate(it):
            if i:
                out += self.chars
            out += self._cs(v)
        return SymStr.mk(out)

    def translate(self, table):
        out = []
        for c in self.chars:
            if not is_sym(c):
                r = table.get(c, c)
                out += [ord(x) for x in r] if isinstance(r, str) else ([] if r is None else [r])
                continue
            done = False
            for k, r in table.items():
                if bool(c == k):
                    out += [ord(x) for x in r] if isinstance(r, str) else ([] if r is None else [r])
                    done = True
                    break
            if not done:
                out.append(c)
        return SymStr.mk(out)

    def to_int(self):
        s = self.strip()
        cs = SymStr._cs(s)
        sign = 1
        if cs and bool(cs[0] == ord('-')):
            sign, cs = -1, cs[1:]
        elif cs and bool(cs[0] == ord('+')):
            cs = cs[1:]
        if not cs:
            raise ValueError('invalid literal for int()')
        v = 0
        for c in cs:
            if not bool(core.sand(c >= 48, c <= 57)):
                raise ValueError('invalid literal for int()')
            v = v * 10 + (c - 48)
        return sign * v

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<symstr>'

    def __format__(self, s):
        return '<symstr>'

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def _sym_eval(self, m):
        return ''.join(chr(core.eval_sym(c, m)) for c in self.chars)


# ------------------------------------------------------------------ math
class _Math(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a):
            a = [x.item() if isinstance(x, snp.ndarray) else x for x in a]
            return f(*[core.eng().pin(x) if is_sym(x) else x for x in a])
        return g


smath = _Math('math')


def _mceil(x):
    if isinstance(x, snp.ndarray):
        x = x.item()
    return x.__ceil__() if is_sym(x) and not isinstance(x, SymBool) else _math.ceil(x)


def _mfloor(x):
    if isinstance(x, snp.ndarray):
        x = x.item()
    return x.__floor__() if is_sym(x) and not isinstance(x, SymBool) else _math.floor(x)


def _mprod(it, start=1):
    r = start
    for v in it:
        r = r * v
    return r


smath.ceil = _mceil
smath.floor = _mfloor
smath.trunc = lambda x: x.__trunc__() if is_sym(x) else _math.trunc(x)
smath.prod = _mprod
smath.isnan = lambda x: False if is_sym(x) else _math.isnan(x)
smath.isinf = lambda x: False if is_sym(x) else _math.isinf(x)
def _msqrt(x):
    if isinstance(x, snp.ndarray):
        x = x.item()
    return snp.sqrt(snp.array(x)).item() if is_sym(x) else _math.sqrt(x)


def _merf(x):
    if isinstance(x, snp.ndarray):
        x = x.item()
    return snp.uf('erf', x) if is_sym(x) else _math.erf(x)


smath.sqrt = _msqrt
smath.erf = _merf
smath.fabs = lambda x: _b.abs(x) if is_sym(x) else _math.fabs(x)


# ------------------------------------------------------------------ ctypes (wrap-around integers)
class _SCtypes(types.ModuleType):
    def __getattr__(self, n):
        return getattr(importlib.import_module('ctypes'), n)


def _cint(real, bits, signed):
    def make(v=0):
        if not is_sym(v):
            return real(v)
        v = core.pymod(v, 1 << bits)
        if signed:
            v = core.ite(v >= (1 << (bits - 1)), v - (1 << bits), v)
        return types.SimpleNamespace(value=v)
    return make


sctypes = _SCtypes('ctypes')
for _b_ in (8, 16, 32, 64):
    import ctypes as _ct
    for _s_ in (True, False):
        _n_ = f'c_{"" if _s_ else "u"}int{_b_}'
        setattr(sctypes, _n_, _cint(getattr(_ct, _n_), _b_, _s_))


# ------------------------------------------------------------------ os (paths with symbolic characters)
class _SPath(types.ModuleType):
    def __getattr__(self, n):
        return getattr(os.path, n)

    @staticmethod
    def join(a, *ps):
        if not _b.any(isinstance(p, SymStr) for p in (a,) + ps):
            return os.path.join(a, *ps)
        for p in ps:
            if _b.len(p) and bool(p[0] == '/'):
                a = p
            elif not _b.len(a) or bool(a[-1] == '/'):
                a = a + p
            else:
                a = a + '/' + p
        return a

    @staticmethod
    def basename(p):
        return p.split('/')[-1] if isinstance(p, SymStr) else os.path.basename(p)


class _SOs(types.ModuleType):
    path = _SPath('os.path')

    def __getattr__(self, n):
        return getattr(os, n)


sos = _SOs('os')


class Recorder:
    """which functions of /repo were executed symbolically (sys.monitoring, one event per code object)"""
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.PY_START, self._cb)
        m.set_events(self.TOOL, m.events.PY_START)
        self.on = True

    def _cb(self, code, off):
        if code.co_filename.startswith('shadow:'):
            self.seen.add(code.co_filename[7:] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


class _Lit(ast.NodeTransformer):
    """bytes literals become values that can be joined with symbolic bytes"""

    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(ast.Name('__lit__', ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n


class Shadow:
    """A fresh set of shadow modules of /repo (onnx_tool.* and inference.*)"""

    def __init__(self, extra=None, transform=None):
        self.mods = {}
        from . import fonnx
        from . import ftorch
        self.extra = {'onnx': fonnx.module, 'onnx.helper': fonnx.module, 'torch': ftorch.module, 'torch.nn': ftorch.nn,
                      'torch.nn.functional': ftorch.functional, 'safetensors': ftorch.safetensors, 'transformers': ftorch.transformers}
        self.extra.update(extra or {})
        self.transform = transform
        self.builtins = dict(vars(_b))
        self.builtins.update({
            'int': sint, 'float': sfloat, 'bool': sbool, 'str': sstr, 'max': smax, 'min': smin, 'sum': ssum,
            'abs': sabs, 'round': sround, 'len': slen, 'isinstance': sisinstance, 'print': sprint, 'type': stype_cls,
            'divmod': sdivmod, 'all': sall, 'any': sany, 'bytearray': sbytes.sbytearray, 'bytes': sbytes.sbytes_type, 'open': sbytes.sopen,
            '__lit__': sbytes.lit,
            '__import__': self._import,
        })

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        if full in self.extra:
            return self.extra['torch'] if full.startswith('torch.') and not fromlist else self.extra[full]
        if full in ('memory_pool', 'kernels', 'infer'):
            return self.load('inference.' + full)
        top = full.split('.')[0]
        if full == 'importlib' and globals is not None and globals.get('__name__', '').startswith('benchmark'):
            return types.SimpleNamespace(reload=lambda m: m, import_module=self._import)
        if top in ('onnx_tool', 'inference', 'benchmark'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + '.' + f))
                        except ImportError:
                            pass
                return m
            return self.mods[top]
        if full == 'numpy':
            return CLI_NUMPY if globals is not None and globals.get('__name__') == 'onnx_tool.__main__' else snp.module
        if top == 'numpy':
            r = importlib.import_module(full)
            return r if fromlist else snp.module
        if full == 'math':
            return smath
        if full == 'ctypes':
            return sctypes
        if full == 'struct':
            return sbytes.sstruct
        if full == 'io':
            return sbytes.sio
        if full in ('os', 'os.path'):
            return sos.path if full == 'os.path' and fromlist else sos
        if top in ('tqdm',):
            raise ImportError(full)
        return _b.__import__(name, globals, locals, fromlist, level)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        path = os.path.join(REPO, *full.split('.'))
        if os.path.isdir(path):
            file = os.path.join(path, '__init__.py')
            pkg = full
            if not os.path.exists(file):
                m = types.ModuleType(full)
                m.__path__ = [path]
                self.mods[full] = m
                return m
        else:
            file = path + '.py'
            pkg = full.rpartition('.')[0]
        if not os.path.exists(file):
            raise ImportError(full)
        parent = full.rpartition('.')[0]
        if parent:
            self.load(parent)
        src = open(file, encoding='utf-8').read()
        tree = ast.parse(src)
        if full.endswith('.serialization'):
            tree = ast.fix_missing_locations(_Lit().visit(tree))
        if self.transform:
            tree = self.transform(full, tree) or tree
        code = compile(tree, 'shadow:' + os.path.relpath(file, REPO), 'exec')
        m = types.ModuleType(full)
        m.__file__ = file
        m.__package__ = pkg
        if pkg == full:
            m.__path__ = [path]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if parent:
            setattr(self.mods[parent], full.rpartition('.')[2], m)
        return m
