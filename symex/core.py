"""Symbolic values and the path-exploring engine (solver: z3).

The engine executes *unmodified* Python functions of /repo on symbolic values.
Every branch on a symbolic condition asks the solver which sides are feasible;
paths are explored depth first by re-execution of a decision prefix.  Every
assertion of a harness is a solver query  path-condition AND NOT assertion.
"""
import sys
import time
import math as _math
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as _np  # noqa: E402

z3.set_param('model.completion', True)


class Steer(BaseException):
    """Base of the exceptions that steer exploration (never caught by code under test)."""


class PathAbort(Steer):
    pass


class BudgetExceeded(Steer):
    pass


class Violation(Exception):
    pass


ENGINE = None


def eng():
    if ENGINE is None:
        raise RuntimeError('no symbolic engine active')
    return ENGINE


# ----------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, Sym)


def z3int(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    raise TypeError(f'not an integer: {type(x)}')


def z3bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymRat):
        return x.n.e != 0
    if isinstance(x, SymReal):
        return x.e != 0
    return z3.BoolVal(bool(x))


def z3real(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymRat):
        return z3.ToReal(z3int(x.n)) / z3.ToReal(z3int(x.d))
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(z3int(x))
    if isinstance(x, (bool, _np.bool_, int, _np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    if isinstance(x, (float, _np.floating)):
        f = Fraction(float(x))
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    raise TypeError(f'not a number: {type(x)}')


INTLIKE = (int, _np.integer, _np.bool_)


class Sym:
    __array_ufunc__ = None
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ----------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('e', 'np')

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    @staticmethod
    def mk(e):
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __bool__(self):
        return eng().decide(self.e)

    def _b(self, o, f):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool.mk(z3.simplify(f(self.e, z3bool(o))))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool.mk(z3.simplify(z3.Not(self.e)))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool.mk(z3.simplify(self.e == z3bool(o)))
        return self.i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __hash__(self):
        return 1

    def i(self):
        return SymInt(z3int(self), 0, 1)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self.i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.i() - o

    def __rsub__(self, o):
        return o - self.i()

    def __mul__(self, o):
        return self.i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.i() < o

    def __le__(self, o):
        return self.i() <= o

    def __gt__(self, o):
        return self.i() > o

    def __ge__(self, o):
        return self.i() >= o

    def __repr__(self):
        return '<symbool>'

    def item(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(bool)

    @property
    def shape(self):
        return ()

    def astype(self, dt):
        k = _np.dtype(dt).kind
        if k == 'b':
            return self
        return self.i().astype(dt)

    def any(self):
        return self

    def all(self):
        return self


def snot(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def sand(*xs):
    r = True
    for x in xs:
        if isinstance(x, SymBool) or isinstance(r, SymBool):
            r = SymBool.mk(z3.simplify(z3.And(z3bool(r), z3bool(x))))
        else:
            r = bool(r) and bool(x)
    return r


def sor(*xs):
    r = False
    for x in xs:
        if isinstance(x, SymBool) or isinstance(r, SymBool):
            r = SymBool.mk(z3.simplify(z3.Or(z3bool(r), z3bool(x))))
        else:
            r = bool(r) or bool(x)
    return r


def simplies(a, b):
    return sor(snot(a), b)


def ite(c, a, b):
    """Polymorphic if-then-else that does not fork."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    num = (int, float, Fraction, Sym, _np.generic)
    if not isinstance(a, num) or not isinstance(b, num):
        return a if bool(c) else b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return SymBool.mk(z3.simplify(z3.If(c.e, z3bool(a), z3bool(b))))
    fl = (SymRat, SymReal, float, _np.floating, Fraction)
    if isinstance(a, fl) or isinstance(b, fl):
        if isinstance(a, (SymRat, int, _np.integer, SymInt)) and isinstance(b, (SymRat, int, _np.integer, SymInt)):
            ra, rb = SymRat.lift(a), SymRat.lift(b)
            return SymRat(ite(c, ra.n, rb.n), ite(c, ra.d, rb.d))
        return SymReal(z3.If(c.e, z3real(a), z3real(b)))
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    dt = getattr(a, 'dt', None) or getattr(b, 'dt', None)
    return SymInt.mk(z3.If(c.e, z3int(a), z3int(b)), lo, hi, dt)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


# ----------------------------------------------------------------- integers
def _add(a, b):
    return None if a is None or b is None else a + b


class SymInt(Sym):
    """A mathematical integer (Python int).  lo/hi: sound static interval.
    dt: numpy dtype when the value is a numpy scalar rather than a Python int."""
    __slots__ = ('e', 'lo', 'hi', 'dt')

    def __init__(self, e, lo=None, hi=None, dt=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.dt = dt

    @staticmethod
    def mk(e, lo=None, hi=None, dt=None):
        if lo is not None and lo == hi:
            return lo if dt is None else _np.dtype(dt).type(lo)
        if z3.is_int_value(e):
            v = e.as_long()
            return v if dt is None else _np.dtype(dt).type(v)
        return SymInt(e, lo, hi, dt)

    # -- scalar protocol
    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __int__(self):
        return eng().concretize(self)

    __index__ = __int__

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .sbytes import encode, sbytes
        if not signed and not bool(self >= 0):
            raise OverflowError("can't convert negative int to unsigned")
        return sbytes(encode(self, 'i' if signed else 'u', length, byteorder == 'big'))

    def __float__(self):
        return float(eng().concretize(self))

    def __hash__(self):
        return 1

    def __repr__(self):
        return '<symint>'

    def __str__(self):
        return token(self, '')

    def __format__(self, spec):
        return token(self, spec)

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError('dtype')
        return _np.dtype(self.dt)

    @property
    def shape(self):
        if self.dt is None:
            raise AttributeError('shape')
        return ()

    def item(self):
        if self.dt is None:
            raise AttributeError('item')
        return SymInt(self.e, self.lo, self.hi)

    def tolist(self):
        return self.item()

    def astype(self, dt):
        if self.dt is None:
            raise AttributeError('astype')
        return cast_elem(self, _np.dtype(dt), npscalar=True)

    def py(self):
        return SymInt(self.e, self.lo, self.hi)

    def npscalar(self, dt):
        return SymInt(self.e, self.lo, self.hi, _np.dtype(dt))

    def _dt(self, o):
        d = getattr(o, 'dt', None)
        if isinstance(o, _np.integer):
            d = o.dtype
        if self.dt is not None and d is not None:
            return _np.result_type(self.dt, d)
        return self.dt if self.dt is not None else d

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o.i()
        if isinstance(o, INTLIKE) or isinstance(o, SymInt):
            if not isinstance(o, SymInt) and int(o) == 0:
                return self
            lo, hi = bounds(o)
            return SymInt.mk(z3.simplify(self.e + z3int(o)), _add(self.lo, lo), _add(self.hi, hi), self._dt(o))
        if isinstance(o, (float, _np.floating, Fraction)):
            return SymRat.lift(self) + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymInt.mk(z3.simplify(-self.e), None if self.hi is None else -self.hi,
                         None if self.lo is None else -self.lo, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return SymInt.mk(z3.If(self.e >= 0, self.e, -self.e), 0, hi, self.dt)

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = o.i()
        if isinstance(o, INTLIKE) or isinstance(o, SymInt):
            lo, hi = bounds(o)
            return SymInt.mk(z3.simplify(self.e - z3int(o)),
                             None if self.lo is None or hi is None else self.lo - hi,
                             None if self.hi is None or lo is None else self.hi - lo, self._dt(o))
        if isinstance(o, (float, _np.floating, Fraction)):
            return SymRat.lift(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, INTLIKE):
            return (-self) + o
        if isinstance(o, (float, _np.floating, Fraction)):
            return SymRat.lift(o) - self
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o.i()
        if isinstance(o, INTLIKE):
            o = int(o) if not isinstance(o, _np.integer) else o
            c = int(o)
            if c == 0:
                return 0 if self._dt(o) is None else self._dt(o).type(0)
            if c == 1:
                return self
            b = [None if v is None else v * c for v in (self.lo, self.hi)]
            if c < 0:
                b.reverse()
            return SymInt.mk(z3.simplify(self.e * c), b[0], b[1], self._dt(o))
        if isinstance(o, SymInt):
            lo = hi = None
            if None not in (self.lo, self.hi, o.lo, o.hi):
                ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
                lo, hi = min(ps), max(ps)
            elif self.lo is not None and o.lo is not None and self.lo >= 0 and o.lo >= 0:
                lo = self.lo * o.lo
            return SymInt.mk(mul_expr(self, o), lo, hi, self._dt(o))
        if isinstance(o, (float, _np.floating, Fraction)):
            return SymRat.lift(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * int(self)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        return pymod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), pymod(self, o)

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool)) or isinstance(o, INTLIKE):
            if not isinstance(o, Sym) and int(o) == 0:
                raise ZeroDivisionError('division by zero')
            if isinstance(o, SymInt) and bool(o == 0):
                raise ZeroDivisionError('division by zero')
            return SymRat.make(self, o)
        if isinstance(o, (float, _np.floating, Fraction)):
            return SymRat.lift(self) / o
        return NotImplemented

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError('division by zero')
        return SymRat.lift(o) / self

    def __pow__(self, o):
        if isinstance(o, INTLIKE) and 0 <= int(o) <= 8:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        if isinstance(o, SymInt):
            return self ** int(o)
        return NotImplemented

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return floordiv(self, 1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    def __and__(self, o):
        return bitop('and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bitop('or', self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bitop('xor', self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        return int(self).bit_length()

    def is_integer(self):
        return True

    # -- comparisons
    def _c(self, o, f, g):
        if isinstance(o, SymBool):
            o = o.i()
        if isinstance(o, SymInt):
            if self.e.eq(o.e):
                return g(0, 0)
            r = interval_cmp(self, o, g)
            if r is not None:
                return r
            return SymBool.mk(z3.simplify(f(self.e, o.e)))
        if isinstance(o, INTLIKE):
            r = interval_cmp(self, o, g)
            if r is not None:
                return r
            return SymBool.mk(z3.simplify(f(self.e, z3.IntVal(int(o)))))
        if isinstance(o, (float, _np.floating)):
            fo = float(o)
            if _math.isinf(fo) or _math.isnan(fo):
                return g(0.0, fo)
            return g_rat(SymRat.lift(self), SymRat.lift(fo), f, g)
        if isinstance(o, (SymRat, SymReal)):
            return NotImplemented
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, Sym) else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(o, Sym) else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, lambda a, b: a >= b)


def interval_cmp(a, b, g):
    """Decide a comparison from the static intervals when they settle it."""
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if None in (la, ha, lb, hb):
        return None
    if ha < lb:
        return g(0, 1)
    if la > hb:
        return g(1, 0)
    if la == hb and g(1, 1) == g(1, 0):      # a >= b throughout
        if g(1, 1) is True or g(1, 0) is False:
            return g(1, 1)
    if ha == lb and g(1, 1) == g(0, 1):      # a <= b throughout
        return g(1, 1)
    return None


SMALL = 12


def _small(x):
    return x.lo is not None and x.hi is not None and x.hi - x.lo <= SMALL


def mul_expr(a, b):
    if ENGINE is not None and ENGINE.poly:
        return z3.simplify(a.e * b.e, som=True)
    if _small(b) and (not _small(a) or (b.hi - b.lo) <= (a.hi - a.lo)):
        pass
    elif _small(a):
        a, b = b, a
    else:
        return a.e * b.e
    if z3.is_mul(a.e) or True:
        r = a.e * b.hi
        for v in range(b.hi - 1, b.lo - 1, -1):
            r = z3.If(b.e == v, a.e * v, r)
        return z3.simplify(r)


def _floordiv_const(ae, c):
    # Python floor division by a non-zero constant; z3 div is floor for c>0
    if c > 0:
        return ae / c
    return (-ae) / (-c)


def floordiv(a, b):
    if isinstance(a, (float, SymRat, SymReal, _np.floating)) or isinstance(b, (float, SymRat, SymReal, _np.floating)):
        r = SymRat.lift(a) / b
        return r.__floor__() + 0.0 if not isinstance(r, Sym) else SymRat.lift(r.__floor__())
    if isinstance(a, SymBool):
        a = a.i()
    if isinstance(b, SymBool):
        b = b.i()
    if not (isinstance(a, (SymInt,)) or isinstance(a, INTLIKE)):
        return NotImplemented
    if not isinstance(b, Sym):
        if not isinstance(b, INTLIKE):
            return NotImplemented
        c = int(b)
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if isinstance(a, INTLIKE):
            return int(a) // c
        if c == 1:
            return a
        lo = hi = None
        if a.lo is not None and a.hi is not None:
            v = [a.lo // c, a.hi // c]
            lo, hi = min(v), max(v)
        return SymInt.mk(z3.simplify(_floordiv_const(a.e, c)), lo, hi, a._dt(b))
    if bool(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    la, ha = bounds(a)
    lo = hi = None
    if la is not None and ha is not None:
        if b.lo is not None and b.lo >= 0:
            bm = max(1, b.lo)
            lo = min(la // bm, la // b.hi if b.hi else 0, 0 if la >= 0 else la // bm, -1 if la < 0 else 0)
            hi = max(ha // bm, 0 if ha >= 0 else -1)
        else:
            m = max(abs(la), abs(ha)) + 1
            lo, hi = -m, m
    ae = z3int(a)
    dt = b._dt(a) if isinstance(b, SymInt) else None
    if _small(b):
        r = None
        for v in range(b.lo, b.hi + 1):
            if v == 0:
                continue
            q = _floordiv_const(ae, v)
            r = q if r is None else z3.If(b.e == v, q, r)
        return SymInt.mk(z3.simplify(r), lo, hi, dt)
    # general: fresh quotient with its defining constraints (kept nonlinear)
    if b.lo is not None and b.lo >= 0:
        return SymInt.mk(ae / b.e, lo, hi, dt)
    return SymInt.mk(z3.If(b.e > 0, ae / b.e, (-ae) / (-b.e)), lo, hi, dt)


def pymod(a, b):
    if isinstance(a, (float, SymRat, SymReal)) or isinstance(b, (float, SymRat, SymReal)):
        q = SymRat.lift(a) / b
        return SymRat.lift(a) - SymRat.lift(q.__floor__()) * b
    if isinstance(a, str):
        return NotImplemented
    if not isinstance(b, Sym) and isinstance(b, INTLIKE):
        c = int(b)
        if isinstance(a, INTLIKE):
            return int(a) % c
        if c > 0 and isinstance(a, SymInt):
            if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < c:
                return a
            return SymInt.mk(z3.simplify(a.e % c), 0, c - 1, a._dt(b))
    q = floordiv(a, b)
    if q is NotImplemented:
        return q
    r = a - b * q
    if isinstance(r, SymInt):
        lb, hb = bounds(b)
        if lb is not None and lb >= 0:
            r.lo = 0
            if hb is not None:
                r.hi = max(0, hb - 1)
    return r


def _factor2(a):
    """a power of two that divides a, read off the term"""
    if isinstance(a, INTLIKE):
        a = int(a)
        return a & -a if a else 1 << 62
    e = a.e
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)):
        c = abs(e.arg(0).as_long())
        return c & -c
    return 1


def bitop(op, a, b):
    if isinstance(b, SymBool):
        b = b.i()
    if isinstance(a, SymBool):
        a = a.i()
    if not isinstance(b, SymInt) and not isinstance(b, INTLIKE):
        return NotImplemented
    dt = a._dt(b)
    if op == 'and' and isinstance(b, INTLIKE):
        m = int(b)
        if m >= 0 and (m & (m + 1)) == 0:      # 2**k - 1
            r = pymod(a, m + 1)
            return r
        k = (m & -m).bit_length() - 1 if m > 0 else 0
        if m > 0 and ((m >> k) & ((m >> k) + 1)) == 0:      # a run of ones
            return pymod(floordiv(a, 1 << k), (m >> k) + 1) * (1 << k)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if None in (la, ha, lb, hb):
        raise Unmodelled('bit operation on unbounded integer')
    w = max(abs(la), abs(ha), abs(lb), abs(hb)).bit_length() + 1
    if op in ('or', 'xor') and la >= 0 and lb >= 0:      # disjoint bits: a multiple of 2^k and a value below 2^k
        for p, q, hq in ((a, b, hb), (b, a, ha)):
            if _factor2(p) > hq:
                return p + q
    x = z3.Int2BV(z3int(a), w)
    y = z3.Int2BV(z3int(b), w)
    r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
    signed = la < 0 or lb < 0
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << (w - 1)) - 1)
    return SymInt.mk(z3.BV2Int(r, is_signed=signed), lo, hi, dt)


class Unmodelled(Exception):
    pass


# ----------------------------------------------------------------- rationals (exact int/int)
def g_rat(a, b, f, g):
    # compare a.n/a.d with b.n/b.d, denominators positive
    l = a.n * b.d
    r = b.n * a.d
    if not isinstance(l, Sym) and not isinstance(r, Sym):
        return g(l, r)
    return SymBool.mk(z3.simplify(f(z3int(l), z3int(r))))


class SymRat(Sym):
    """Exact quotient of two integers: models Python float results of int/int.
    The harness bounds keep |n| < 2**51, so floor/ceil/int of the IEEE double
    (one or two correctly rounded operations) equal those of the exact quotient."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def make(n, d):
        """normalise to a positive denominator"""
        if isinstance(d, Sym):
            lo, _ = bounds(d)
            if lo is None or lo <= 0:
                neg = d < 0
                n = ite(neg, -n, n) if isinstance(neg, SymBool) else (-n if neg else n)
                d = abs(d)
        elif d < 0:
            n, d = -n, -d
        return SymRat(strip(n), strip(d))

    @staticmethod
    def lift(x):
        if isinstance(x, SymRat):
            return x
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymRat(strip(x), 1)
        if isinstance(x, INTLIKE):
            return SymRat(int(x), 1)
        f = x if isinstance(x, Fraction) else Fraction(float(x))
        return SymRat(f.numerator, f.denominator)

    def _ar(self, o):
        if isinstance(o, (SymRat, SymInt, SymBool, float, _np.floating, Fraction)) or isinstance(o, INTLIKE):
            return SymRat.lift(o)
        return None

    def __add__(self, o):
        if isinstance(o, SymReal):
            return SymReal(z3real(self)) + o
        o = self._ar(o)
        if o is None:
            return NotImplemented
        if same(self.d, o.d):
            return SymRat(self.n + o.n, self.d)
        return SymRat(self.n * o.d + o.n * self.d, self.d * o.d)

    __radd__ = __add__

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def __sub__(self, o):
        if isinstance(o, SymReal):
            return SymReal(z3real(self)) - o
        o = self._ar(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, SymReal):
            return SymReal(z3real(self)) * o
        o = self._ar(o)
        if o is None:
            return NotImplemented
        return SymRat(self.n * o.n, self.d * o.d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymReal):
            return SymReal(z3real(self)) / o
        o = self._ar(o)
        if o is None:
            return NotImplemented
        if bool(o.n == 0):
            raise ZeroDivisionError('float division by zero')
        return SymRat.make(self.n * o.d, self.d * o.n)

    def __rtruediv__(self, o):
        o = self._ar(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __abs__(self):
        return SymRat(abs(self.n), self.d)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = SymRat(1, 1)
            for _ in range(o):
                r = r * self
            return r
        return NotImplemented

    def __floor__(self):
        return floordiv(self.n, self.d) if is_sym(self.n) or is_sym(self.d) else self.n // self.d

    def __ceil__(self):
        n = -self.n
        return -(floordiv(n, self.d) if is_sym(n) or is_sym(self.d) else n // self.d)

    def trunc(self):
        neg = self.n < 0
        if neg is True:
            return self.__ceil__()
        if neg is False:
            return self.__floor__()
        return ite(neg, self.__ceil__(), self.__floor__())

    __trunc__ = trunc

    def __round__(self, nd=None):
        # round half to even, exact
        if nd not in (None, 0):
            raise Unmodelled('round(x, n)')
        two = SymRat(self.n * 2 + self.d, self.d * 2)
        fl = two.__floor__()
        # exactly half:  (2n + d) % (2d) == 0
        rem = pymod(self.n * 2 + self.d, self.d * 2) if is_sym(self.n) or is_sym(self.d) \
            else (self.n * 2 + self.d) % (self.d * 2)
        half = rem == 0
        odd = (pymod(fl, 2) if is_sym(fl) else fl % 2) == 1
        return ite(sand(half, odd), fl - 1, fl)

    def is_integer(self):
        return pymod(self.n, self.d) == 0

    def __int__(self):
        return int(self.trunc())

    def __float__(self):
        return float(Fraction(int(self.n), int(self.d)))

    def __bool__(self):
        return bool(self.n != 0)

    def _c(self, o, f, g):
        if isinstance(o, (float, _np.floating)) and (_math.isinf(o) or _math.isnan(o)):
            return g(0.0, float(o))
        if isinstance(o, SymReal):
            return SymReal(z3real(self))._c(o, f, g)
        o = self._ar(o)
        if o is None:
            return NotImplemented
        return g_rat(self, o, f, g)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return 1

    def __repr__(self):
        return '<symrat>'

    def __str__(self):
        return token(self, '')

    def __format__(self, s):
        return token(self, s)

    def item(self):
        return self


def strip(x):
    """numpy scalar -> python-int valued"""
    if isinstance(x, SymInt) and x.dt is not None:
        return x.py()
    if isinstance(x, SymBool):
        return x.i()
    if isinstance(x, (_np.integer, _np.bool_)):
        return int(x)
    return x


def same(a, b):
    if is_sym(a) and is_sym(b):
        return a is b or (isinstance(a, SymInt) and isinstance(b, SymInt) and a.e.eq(b.e))
    if is_sym(a) or is_sym(b):
        return False
    return a == b


# ----------------------------------------------------------------- reals (tensor data)
class SymReal(Sym):
    __slots__ = ('e', 'dt')

    def __init__(self, e, dt=None):
        self.e = e
        self.dt = dt

    def _l(self, o):
        if isinstance(o, (SymReal, SymRat, SymInt, SymBool, float, _np.floating, Fraction)) or isinstance(o, INTLIKE):
            return z3real(o)
        return None

    def _b(self, o, f, r=False):
        if isinstance(o, (float, _np.floating)) and not _math.isfinite(o):
            raise Unmodelled('non-finite float')
        e = self._l(o)
        if e is None:
            return NotImplemented
        dt = self.dt
        od = o.dt if isinstance(o, SymReal) else o.dtype if isinstance(o, _np.generic) else None
        if dt is not None and od is not None and dt != od:
            dt = _np.result_type(dt, od)
        return SymReal(z3.simplify(f(e, self.e) if r else f(self.e, e)), dt if dt is not None else od if isinstance(o, SymReal) else None)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if bool(o == 0):
            raise ZeroDivisionError('division by zero')
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError('division by zero')
        if not is_sym(o) and isinstance(o, (int, float, Fraction)) and o == 0:
            return SymReal(z3.RealVal(0), self.dt)
        return self._b(o, lambda a, b: a / b, True)

    def __neg__(self):
        return SymReal(-self.e, self.dt)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.dt)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return NotImplemented

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def trunc(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = trunc

    def __round__(self, nd=None):
        fl = z3.ToInt(self.e + z3.RealVal('1/2'))
        half = z3.ToReal(fl) == self.e + z3.RealVal('1/2')
        return SymInt(z3.If(z3.And(half, fl % 2 == 1), fl - 1, fl))

    def __int__(self):
        return int(self.trunc())

    def __float__(self):
        return eng().concretize_real(self)

    def __bool__(self):
        return bool(self != 0)

    def _c(self, o, f, g=None):
        if isinstance(o, (float, _np.floating)) and not _math.isfinite(o):
            return g(0.0, float(o))
        e = self._l(o)
        if e is None:
            return NotImplemented
        return SymBool.mk(z3.simplify(f(self.e, e)))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return 1

    def __repr__(self):
        return '<symreal>'

    def __str__(self):
        return token(self, '')

    def __format__(self, s):
        return token(self, s)

    def item(self):
        return self

    def astype(self, dt):
        return cast_elem(self, _np.dtype(dt))


def cast_elem(x, dt, npscalar=False):
    """numpy C-style cast of one element to dtype dt (ints wrap modulo 2**k)."""
    dt = _np.dtype(dt)
    if dt.kind == 'b':
        if isinstance(x, SymBool):
            return x
        if is_sym(x):
            return x != 0
        return bool(x)
    if dt.kind in 'iu':
        if isinstance(x, SymBool):
            x = x.i()
        if isinstance(x, (SymRat, SymReal)):
            x = x.trunc()
        if isinstance(x, (float, _np.floating)):
            x = int(x)
        if isinstance(x, SymInt):
            info = _np.iinfo(dt)
            y = x
            if x.lo is None or x.hi is None or x.lo < info.min or x.hi > info.max:
                if dt.itemsize < 8:
                    m = 1 << (8 * dt.itemsize)
                    y = pymod(x.py() - int(info.min), m) + int(info.min)
                    if not is_sym(y):
                        return y
            return SymInt(y.e, y.lo, y.hi, dt if npscalar else None)
        v = int(x)
        m = 1 << (8 * dt.itemsize)
        v %= m
        if dt.kind == 'i' and v >= m // 2:
            v -= m
        return v
    if dt.kind == 'f':
        if is_sym(x):
            return x if isinstance(x, (SymRat, SymReal)) else SymRat.lift(x)
        return float(dt.type(x))
    return x


# ----------------------------------------------------------------- names (symbolic identifiers)
# A symbolic number written into text becomes one private-use character; the harness reads it back (env.num).
TOKENS = []


def token(v, spec):
    if len(TOKENS) > 60000:
        raise Unmodelled('too many rendered symbolic numbers')
    TOKENS.append((v, spec))
    return chr(0xF0000 + len(TOKENS) - 1)


def untoken(s):
    """the symbolic number rendered as s, or None"""
    if len(s) == 1 and 0xF0000 <= ord(s) < 0xF0000 + len(TOKENS):
        return TOKENS[ord(s) - 0xF0000]
    return None


class Name(str):
    """A string drawn from a finite pool; equality is decided by the solver.
    Constant hash so that dict / set lookups compare by ==."""
    __slots__ = ('e', 'pool')

    def __new__(cls, e, pool):
        s = str.__new__(cls, '?sym' if not isinstance(e, int) else pool[e])
        s.e = e
        s.pool = pool
        return s

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, Name):
            a, b = self.e, o.e
            if isinstance(a, int) and isinstance(b, int):
                return self.pool[a] == o.pool[b]
            if self.pool is not o.pool:
                raise Unmodelled('names of different pools')
            r = a == b
            return bool(r)
        if isinstance(o, str):
            if isinstance(self.e, int):
                return self.pool[self.e] == str(o)
            if o in self.pool:
                return bool(self.e == self.pool.index(o))
            return False
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __len__(self):
        return str.__len__(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ----------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.checks = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.aborted = 0
        self.validated = 0
        self.mismatch = 0
        self.pinned = 0
        self.decisions = 0
        self.exhausted = True
        self.notes = []


class Engine:
    def __init__(self, max_paths=20000, deadline=None, branch_ms=4000, check_ms=20000, poly=False):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.check_ms = check_ms
        self.poly = poly
        self.violations = []
        self.reach = 0
        self.fns = set()

    # -- one path
    def begin(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_ms)
        self.cons = []
        self.prefix = prefix
        self.dec = []
        self.model = None
        self.inputs = {}
        self.ranges = {}
        self.observed = []
        TOKENS.clear()
        self.pinned_here = False
        self.fresh = 0
        self.path_viol = []
        self.model_stale = True
        self.poly_default = self.poly

    def add(self, c):
        self.solver.add(c)
        self.cons.append(c)

    def _check(self, extra=None, ms=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.time()
        self.stats.queries += 1
        if ms is not None:
            self.solver.set('timeout', ms)
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        if ms is not None:
            self.solver.set('timeout', self.branch_ms)
        if r == z3.unknown:
            # fresh non-incremental solver (different strategy, no push/pop state)
            s = z3.Solver()
            s.set('timeout', ms or self.branch_ms)
            s.add(*self.cons)
            if extra is not None:
                s.add(extra)
            self.stats.queries += 1
            r = s.check()
            m = s.model() if r == z3.sat else None
            if r == z3.unknown:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
                s.set('timeout', ms or self.branch_ms)
                s.add(*self.cons)
                if extra is not None:
                    s.add(extra)
                self.stats.queries += 1
                r = s.check()
                m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self._check(ms=self.check_ms)
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self.stats.unknown += 1
                self.stats.exhausted = False
                raise PathAbort()
            self.model = m
        return self.model

    def decide(self, cond):
        self.stats.decisions += 1
        i = len(self.dec)
        if i < len(self.prefix):
            side = self.prefix[i]
            self.dec.append(side)
            self.add(cond if side else z3.Not(cond))
            self.model = None
            return side
        m = self.get_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r, m2 = self._check(other)
        if r == z3.unknown:
            self.stats.unknown += 1
        if r != z3.unsat:
            self.stack.append(self.dec + [not side])
        self.dec.append(side)
        self.add(cond if side else z3.Not(cond))
        return side

    def concretize(self, x):
        """Fork over the feasible values of an integer."""
        if x.lo is not None and x.lo == x.hi:
            return x.lo
        i = 0
        while True:
            i += 1
            if i > 600:
                raise BudgetExceeded()
            # candidate values must be reproducible on replay: derive from interval when known
            if len(self.dec) < len(self.prefix):
                v = self.prefix[len(self.dec)]
                if isinstance(v, tuple):          # ('v', value, side)
                    _, val, side = v
                    self.dec.append(v)
                    self.add(x.e == val if side else x.e != val)
                    self.model = None
                    if side:
                        return val
                    continue
                raise RuntimeError('nondeterministic replay')
            m = self.get_model()
            val = m.eval(x.e, model_completion=True).as_long()
            r, _ = self._check(x.e != val)
            if r == z3.unknown:
                self.stats.unknown += 1
            if r != z3.unsat:
                self.stack.append(self.dec + [('v', val, False)])
            self.dec.append(('v', val, True))
            self.add(x.e == val)
            return val

    def pin(self, x):
        """Replace a symbolic value by its value in the current model (incomplete: recorded)."""
        m = self.get_model()
        self.pinned_here = True
        self.stats.pinned += 1
        self.stats.exhausted = False
        if isinstance(x, SymBool):
            v = z3.is_true(m.eval(x.e, model_completion=True))
            self.add(x.e == v)
            return v
        if isinstance(x, SymInt):
            v = m.eval(x.e, model_completion=True).as_long()
            self.add(x.e == v)
            return v if x.dt is None else x.dt.type(v)
        if isinstance(x, SymRat):
            n, d = self.pin(x.n) if is_sym(x.n) else x.n, self.pin(x.d) if is_sym(x.d) else x.d
            return float(Fraction(int(n), int(d)))
        if isinstance(x, SymReal):
            v = m.eval(x.e, model_completion=True)
            self.add(x.e == v)
            return float(val_of(v))
        return x

    def concretize_real(self, x):
        return self.pin(x)

    def assume(self, c):
        e = z3bool(c) if not isinstance(c, bool) else z3.BoolVal(c)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort()
        self.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        # feasibility is established lazily by get_model()/decide()

    def check(self, c, label):
        self.stats.checks += 1
        self.reach += 1
        if isinstance(c, (bool, _np.bool_)):
            if c:
                # decided on this path by the path condition alone (the path itself is feasible)
                self.stats.discharged += 1
                return
            m = self.get_model()
            self.path_viol.append((label, self.extract(m)))
            raise PathAbort()
        e = z3bool(c)
        r, m = self._check(z3.Not(e), ms=self.check_ms)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            self.stats.exhausted = False
            if len(self.stats.notes) < 20:
                self.stats.notes.append(f'unknown: {label}')
            self.assume(c)
            return
        self.path_viol.append((label, self.extract(m)))
        # continue with the assertion assumed so that other checks are still decided
        self.assume(c)
        self.model = None
        self.get_model()

    def other_model(self, rng):
        """another model of the finished path, pulled towards random / extreme input values (None when there is none nearby)"""
        want = []
        for n, (k, v) in self.inputs.items():
            if k == 'bool':
                want.append(v if rng.random() < .5 else z3.Not(v))
            elif n in self.ranges:
                lo, hi = self.ranges[n]
                t = rng.choice((lo, hi, rng.randint(int(lo), int(hi)), rng.randint(int(lo), int(hi))))
                want.append(v == (z3real(t) if k == 'real' else t))
        rng.shuffle(want)
        if not want or self.poly:
            return None
        best, budget = None, [14]
        kept = []

        def tryall(ws):
            nonlocal best
            if not ws or budget[0] <= 0:
                return
            budget[0] -= 1
            r, m = self._check(z3.And(*(kept + ws)), ms=400)
            if r == z3.sat:
                kept.extend(ws)
                best = m
            elif len(ws) > 1:
                h = len(ws) // 2
                tryall(ws[:h])
                tryall(ws[h:])
        tryall(want)
        return best

    def extract(self, m):
        out = {}
        for n, (k, v) in self.inputs.items():
            out[n] = val_of(m.eval(v, model_completion=True))
        return out

    def explore(self, fn, on_path_end=None):
        global ENGINE
        self.stack = [[]]
        prev = ENGINE
        ENGINE = self
        try:
            while self.stack:
                if self.stats.paths >= self.max_paths:
                    self.stats.exhausted = False
                    self.stats.notes.append(f'path budget {self.max_paths} reached')
                    break
                prefix = self.stack.pop()
                self.begin(prefix)
                self.stats.paths += 1
                ended = False
                try:
                    fn()
                    ended = True
                except PathAbort:
                    self.stats.aborted += 1
                except BudgetExceeded:
                    self.stats.exhausted = False
                    self.stats.notes.append('time budget reached')
                    self.violations.extend(self.path_viol)
                    break
                self.violations.extend(self.path_viol)
                if on_path_end is not None:
                    try:
                        on_path_end(self, ended)
                    except PathAbort:
                        pass
                    except BudgetExceeded:
                        self.stats.exhausted = False
                        self.stats.notes.append('time budget reached')
                        break
                if len(self.violations) >= 12:
                    self.stats.notes.append('stopped after 12 counterexamples')
                    break
        finally:
            ENGINE = prev


def val_of(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return Fraction(f.numerator, f.denominator)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return str(v)


def eval_sym(x, m):
    """Evaluate a nested structure of symbolic values under a model."""
    if isinstance(x, Name):
        i = x.e if isinstance(x.e, int) else eval_sym(x.e, m)
        return x.pool[i]
    if isinstance(x, (SymInt, SymBool, SymReal)):
        return val_of(m.eval(x.e, model_completion=True))
    if isinstance(x, SymRat):
        return Fraction(eval_sym(x.n, m), eval_sym(x.d, m))
    if isinstance(x, (list, tuple)):
        return [eval_sym(v, m) for v in x]
    if isinstance(x, dict):
        return {eval_sym(k, m): eval_sym(v, m) for k, v in x.items()}
    if isinstance(x, _np.ndarray):
        return eval_sym(x.tolist(), m)
    if hasattr(x, '_sym_eval'):
        return x._sym_eval(m)
    if isinstance(x, (set, frozenset)):
        return sorted(eval_sym(v, m) for v in x)
    return x
