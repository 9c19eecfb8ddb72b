"""Harness environments.

A harness is one Python function h(E, **config).  It runs twice:
 * SymEnv  - inputs are solver variables, the code of /repo runs in shadow modules,
             every E.check is a solver query over the whole path condition;
 * ConcEnv - inputs are the solver's concrete values and the *real* package is
             imported from /repo; every E.check is evaluated concretely (replay).
"""
import contextlib
import importlib
import io
import math
import os
import runpy
import sys
from fractions import Fraction
import numpy as np
from . import core, snp, shadow
from .core import (SymInt, SymBool, SymReal, SymRat, Name, is_sym, ite, sand, sor, snot, Unmodelled, z3)


class Res:
    __slots__ = ('ok', 'val', 'exc')

    def __init__(self, ok, val, exc):
        self.ok, self.val, self.exc = ok, val, exc


class CheckFailed(BaseException):
    pass


class Env:
    known_ids = frozenset()

    # ---- modules
    def m(self, name):
        raise NotImplementedError

    @property
    def node(self):
        return self.m('node')

    @property
    def tensor(self):
        return self.m('tensor')

    @property
    def graph(self):
        return self.m('graph')

    # ---- convenience on top of the primitives
    def ints(self, name, n, lo, hi):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    def int_array(self, name, shape, lo, hi, dtype=np.int64):
        n = int(np.prod(shape)) if len(shape) else 1
        return self.array(_nest([self.int(f'{name}{i}', lo, hi) for i in range(n)], shape), dtype)

    def real_array(self, name, shape, lo, hi, dtype=np.float32):
        n = int(np.prod(shape)) if len(shape) else 1
        return self.array(_nest([self.real(f'{name}{i}', lo, hi) for i in range(n)], shape), dtype)

    def bool_array(self, name, shape):
        n = int(np.prod(shape)) if len(shape) else 1
        return self.array(_nest([self.bool(f'{name}{i}') for i in range(n)], shape), np.bool_)

    def t(self, name, shape=None, dtype='', value=None, static=None):
        T = self.tensor
        t = T.Tensor(name)
        if isinstance(dtype, str) and dtype == '':
            dtype = None if value is not None else np.float32
        if value is not None:
            t.numpy = value
            t.shape = list(value.shape)
            t.dtype = np.dtype(dtype if dtype is not None else value.dtype).type if dtype is not None else value.dtype.type
            t.type = T.STATIC_TENSOR if static in (None, True) else T.DYNAMIC_TENSOR
        else:
            t.shape = list(shape)
            t.dtype = np.dtype(dtype).type
            t.type = T.STATIC_TENSOR if static else T.DYNAMIC_TENSOR
        return t

    def mknode(self, op, attrs=None, nin=1, nout=1, name='n0', static=()):
        N = self.node
        p = N.TmpNodeProto(name, op, dict(attrs or {}))
        p.input = [f'i{i}' for i in range(nin)]
        p.output = [f'o{i}' for i in range(nout)]
        n = N.create_node(p)
        n.input = [f'i{i}' for i in range(nin)]
        n.output = [f'o{i}' for i in range(nout)]
        n.static_inputs = list(static)
        n.dynamic_inputs = [i for i in range(nin) if i not in static]
        return n

    def num(self, s):
        """the number a piece of printed text stands for ('1,234', '12.50%', '7'); None when it is no number"""
        t = core.untoken(s) if self.sym else None
        if t is not None:
            return t[0]
        s = s.strip().replace(',', '')
        try:
            return Fraction(s[:-1]) / 100 if s.endswith('%') else (int(s) if s.lstrip('-').isdigit() else float(s))
        except ValueError:
            return None

    def plain(self, s):
        """printed text has no thousands separator"""
        t = core.untoken(s) if self.sym else None
        if t is not None:
            return self.all(t[0] > -1000, t[0] < 1000) if ',' in t[1] else True
        return ',' not in s

    def call(self, fn, *a, **k):
        try:
            return Res(True, fn(*a, **k), None)
        except Unmodelled:
            raise
        except RecursionError as e:
            return Res(False, None, e)
        except Exception as e:
            if os.environ.get('SYMEX_DEBUG'):
                import traceback
                traceback.print_exc()
            return Res(False, None, e)

    def text_eq(self, a, b):
        r = a == b
        return r

    def int_of_char(self, t, i):
        return t.chars[i] - 48 if hasattr(t, 'chars') else ord(t[i]) - 48

    def cli(self, argv):
        """python -m onnx_tool <argv>; the exit status (None: it ran to its end)"""
        old = sys.argv
        sys.argv = ['onnx_tool'] + list(argv)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                self._cli()
            return Res(True, None, None)
        except Unmodelled:
            raise
        except SystemExit as e:
            return Res(not e.code, e.code, e)
        except Exception as e:
            return Res(False, None, e)
        finally:
            sys.argv = old

    def same(self, a, b):
        """lists/tuples of integers are equal (length and elements)"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        return self.all(*[self.eq(x, y) for x, y in zip(a, b)])

    def eq(self, x, y):
        r = x == y
        return r if is_sym(r) else bool(r)

    def cname(self, pool, s):
        """the fixed name s of a pool some of whose other names are symbolic"""
        return Name(pool.index(s), pool) if self.sym else s

    def t_eq(self, a, b):
        """equality of two (possibly symbolic) names, without branching"""
        if not isinstance(a, Name) and not isinstance(b, Name):
            return a == b
        pool = a.pool if isinstance(a, Name) else b.pool
        ix = lambda v: v.e if isinstance(v, Name) else (pool.index(v) if v in pool else -1)
        return self.eq(ix(a), ix(b))

    def implies(self, a, b):
        return self.any(self.no(a), b)


def _nest(flat, shape):
    if len(shape) == 0:
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    k = len(flat) // shape[0] if shape[0] else 0
    return [_nest(flat[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


    def num(self, s):
        """the number a piece of printed text stands for ('1,234', '12.50%', '7'); None when it is no number"""
        t = core.untoken(s) if self.sym else None
        if t is not None:
            return t[0]
        s = s.strip().replace(',', '')
        try:
            return Fraction(s[:-1]) / 100 if s.endswith('%') else (int(s) if s.lstrip('-').isdigit() else float(s))
        except ValueError:
            return None


# ------------------------------------------------------------------ symbolic
class SymEnv(Env):
    sym = True

    def __init__(self, engine, mods):
        self.e = engine
        self.mods = mods
        self.np = snp.module

    def m(self, name):
        full = 'onnx_tool' if name == '' else (name if name.startswith(('inference', 'benchmark')) else 'onnx_tool.' + name)
        return self.mods.load(full)

    def _cli(self):
        self.mods.mods.pop('onnx_tool.__main__', None)
        self.mods.load('onnx_tool.__main__')

    def _reg(self, name, kind, var):
        if name in self.e.inputs:
            raise RuntimeError(f'duplicate input {name}')
        self.e.inputs[name] = (kind, var)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = z3.Int(name)
        self._reg(name, 'int', v)
        self.e.ranges[name] = (lo, hi)
        self.e.add(z3.And(v >= lo, v <= hi))
        self.e.model = None
        return SymInt(v, lo, hi)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, 'bool', v)
        return SymBool(v)

    def real(self, name, lo, hi):
        v = z3.Real(name)
        self._reg(name, 'real', v)
        self.e.ranges[name] = (lo, hi)
        self.e.add(z3.And(v >= core.z3real(lo), v <= core.z3real(hi)))
        self.e.model = None
        return SymReal(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.e.concretize(i)]

    def name(self, nm, pool):
        return Name(self.int(nm, 0, len(pool) - 1), pool)

    def text(self, name, n, alphabet):
        """symbolic text of length n whose characters range over `alphabet`"""
        cs = []
        codes = sorted(ord(c) for c in alphabet)
        for i in range(n):
            v = z3.Int(f'{name}.{i}')
            self._reg(f'{name}.{i}', 'int', v)
            runs = []
            for c in codes:
                if runs and runs[-1][1] == c - 1:
                    runs[-1][1] = c
                else:
                    runs.append([c, c])
            self.e.add(z3.Or(*[z3.And(v >= a, v <= b) for a, b in runs]))
            cs.append(SymInt(v, codes[0], codes[-1]))
        self.e.model = None
        return shadow.SymStr.mk(cs)

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, label, known=None):
        if known:
            for k, region in known.items():
                if k in self.known_ids:
                    c = self.any(c, region)
        self.e.check(c, label)

    def fail(self, label):
        self.e.check(False, label)

    def observe(self, label, v):
        self.e.observed.append((label, v))

    def array(self, v, dtype=None):
        return snp.array(v, dtype)

    def from_bits(self, bits, shape, dtype):
        """float array made of the given bit patterns (NaNs, infinities and negative zeros included)"""
        return snp.array(_nest([snp.real_of_bits(b, dtype) for b in bits], shape), dtype)

    def opaque(self, shape, dtype=np.float32, fill=None):
        return snp.mkopaque(shape, dtype, fill)

    def all(self, *xs):
        return sand(*xs)

    def any(self, *xs):
        return sor(*xs)

    def no(self, x):
        return snot(x)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *a):
        return shadow.smax(*a)

    def min(self, *a):
        return shadow.smin(*a)

    def floor(self, x):
        return shadow._mfloor(x)

    def ceil(self, x):
        return shadow._mceil(x)

    def close(self, a, b, tol=0):
        """|a-b| <= tol (exact in the real-number idealisation when tol is 0)"""
        d = a - b
        if not tol:
            r = (d == 0)
            return r if is_sym(r) else bool(r)
        return sand(d <= tol, d >= -tol)

    def frac(self, a, b):
        return core.SymRat.make(a, b) if (is_sym(a) or is_sym(b)) else Fraction(a, b)

    def elems(self, a):
        """flat list of the elements of an array"""
        if isinstance(a, snp.ndarray):
            a._materialise()
            return list(a.a.reshape(-1).tolist()) if a.a.dtype != object else list(a.a.reshape(-1))
        if is_sym(a):
            return [a]
        return list(np.asarray(a).reshape(-1).tolist())

    def ishape(self, a):
        return list(a.shape)


# ------------------------------------------------------------------ concrete
class ConcEnv(Env):
    sym = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.observed = []
        self.np = np
        self.used = {}
        self.reached = 0

    def m(self, name):
        full = 'onnx_tool' if name == '' else (name if name.startswith(('inference', 'benchmark')) else 'onnx_tool.' + name)
        if name.startswith('inference'):
            from . import ftorch
            sys.modules.update({'torch': ftorch.module, 'torch.nn': ftorch.nn, 'torch.nn.functional': ftorch.functional,
                                'safetensors': ftorch.safetensors, 'transformers': ftorch.transformers})
            for n in ('memory_pool', 'kernels', 'infer') if name.endswith(('llm_infer', 'yolo_eval')) else ('memory_pool', 'kernels'):
                if name != 'inference.' + n:
                    sys.modules[n] = importlib.import_module('inference.' + n)
        return importlib.import_module(full)

    def _cli(self):
        importlib.import_module('onnx_tool')
        runpy.run_module('onnx_tool', run_name='__main__')

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo, hi):
        v = self._get(name, lo)
        return float(Fraction(v)) if not isinstance(v, float) else v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def name(self, nm, pool):
        return pool[int(self._get(nm, 0))]

    def text(self, name, n, alphabet):
        d = ord(min(alphabet))
        return ''.join(chr(int(self._get(f'{name}.{i}', d))) for i in range(n))

    def assume(self, c):
        if not c:
            raise core.PathAbort()

    def check(self, c, label, known=None):
        self.reached += 1
        if known:
            for k, region in known.items():
                if k in self.known_ids and bool(region):
                    return
        if not bool(c):
            self.failures.append(label)

    def fail(self, label):
        self.check(False, label)
        raise core.PathAbort()

    def observe(self, label, v):
        self.observed.append((label, v))

    def array(self, v, dtype=None):
        return np.array(v, dtype)

    def from_bits(self, bits, shape, dtype):
        return np.array([int(b) for b in bits], f'uint{8 * np.dtype(dtype).itemsize}').view(dtype).reshape(tuple(shape))

    def opaque(self, shape, dtype=np.float32, fill=None):
        shape = tuple(int(s) for s in shape)
        return np.full(shape, fill, dtype) if fill else np.zeros(shape, dtype)

    def all(self, *xs):
        return all(bool(x) for x in xs)

    def any(self, *xs):
        return any(bool(x) for x in xs)

    def no(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def max(self, *a):
        return max(*a) if len(a) > 1 else max(a[0])

    def min(self, *a):
        return min(*a) if len(a) > 1 else min(a[0])

    def floor(self, x):
        return math.floor(x)

    def ceil(self, x):
        return math.ceil(x)

    def close(self, a, b, tol=0):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        return abs(a - b) <= float(tol) + 2e-4 * max(1.0, abs(a), abs(b))

    def frac(self, a, b):
        return Fraction(a, b)

    def elems(self, a):
        return list(np.asarray(a).reshape(-1).tolist())

    def ishape(self, a):
        return [int(s) for s in a.shape]


def norm(v):
    """observation -> comparable plain data"""
    if isinstance(v, (np.ndarray,)):
        return norm(v.tolist())
    if isinstance(v, np.generic):
        return norm(v.item())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm(x) for x in v), key=str)
    if isinstance(v, dict):
        return {str(norm(k)): norm(x) for k, x in v.items()}
    if isinstance(v, bytes):
        return v.decode('latin1')
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, BaseException):
        return type(v).__name__
    return v


def obs_equal(a, b, tol=1e-3):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_equal(a[k], b[k], tol) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else a == b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        try:
            fa, fb = float(a), float(b)
        except OverflowError:
            return False
        return fa == fb or abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))
    return a == b


def jsonable(v):
    if isinstance(v, Fraction):
        return f'{v.numerator}/{v.denominator}'
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, np.generic):
        return v.item()
    return str(v)
