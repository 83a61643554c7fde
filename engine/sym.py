"""Symbolic values: proxies over z3 terms that the real nion.utils code computes with.

A proxy records the operation the code under test performs as a z3 term.  Whenever CPython needs a
concrete truth value (``if``, ``and``, ``in`` ...) or a concrete index, the current path context
(`CTX`) is asked; it consults the solver and forks the execution for every feasible answer.

Integers are mathematical integers (Python's int does not wrap).  Floats are handled *exactly*
or with a sound over-approximation of IEEE-754 double rounding, never as idealised reals:

  * a "dyadic" float is an integer numerator term over 2**k whose magnitude, by interval
    arithmetic on the declared input ranges, stays below 2**53: the double operation is exact and
    so is the term;
  * any other operation result is a fresh real variable v with  |v - t| <= 2**-53 |t|  (t: the
    exact real result), v between floor(t) and ceil(t), and v == t when t is an integer below
    2**53.  Every double result satisfies this, so `unsat` carries over to doubles; a `sat` answer
    is only reported after it has been replayed on the real code.

NaN, infinities and overflow are outside (inputs are finite and bounded).
"""
from __future__ import annotations

import builtins
import collections.abc
import fractions
import math
import numbers
import operator
import re

import z3

CTX = None  # the current symbolic path context (engine.explore.PathContext) or None


def set_context(ctx):
    global CTX
    CTX = ctx


class Unsupported(BaseException):
    """The engine cannot represent an operation."""


TWO53 = 2 ** 53

_int = builtins.int
_float = builtins.float
_bool = builtins.bool
_str = builtins.str
_set = builtins.set
_frozenset = builtins.frozenset
_range = builtins.range
_min = builtins.min
_max = builtins.max
_abs = builtins.abs
_round = builtins.round
_isinstance = builtins.isinstance


# --------------------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, other):
        return SymBool(z3.And(self.e, zb(other)))

    __rand__ = __and__

    def __or__(self, other):
        return SymBool(z3.Or(self.e, zb(other)))

    __ror__ = __or__

    def __xor__(self, other):
        return SymBool(z3.Xor(self.e, zb(other)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, other):
        if _isinstance(other, (SymBool, _bool)):
            return SymBool(self.e == zb(other))
        if _isinstance(other, (_int, SymInt)):
            return self._i() == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __truediv__(self, o): return self._i() / o
    def __rtruediv__(self, o): return o / self._i()
    def __floordiv__(self, o): return self._i() // o
    def __rfloordiv__(self, o): return o // self._i()
    def __mod__(self, o): return self._i() % o
    def __rmod__(self, o): return o % self._i()
    def __divmod__(self, o): return divmod(self._i(), o)
    def __pow__(self, n): return self._i() ** n
    def __neg__(self): return -self._i()
    def __pos__(self): return self._i()
    def __abs__(self): return self._i()
    def __round__(self, n=None): return self._i()
    def __trunc__(self): return self._i()
    __floor__ = __ceil__ = __trunc__

    def __hash__(self):
        return hash(_bool(self))

    def __index__(self):
        return _int(_bool(self))

    __int__ = __index__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbool>"


def zb(x):
    if _isinstance(x, SymBool):
        return x.e
    if _isinstance(x, _bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    return z3.BoolVal(_bool(x))


# --------------------------------------------------------------------------- integers

def _bmin(a, b):
    return None if a is None or b is None else _min(a, b)


def _bmax(a, b):
    return None if a is None or b is None else _max(a, b)


def _badd(a, b):
    return None if a is None or b is None else a + b


def _bneg(a):
    return None if a is None else -a


def _bmul(a, b):
    (al, ah), (bl, bh) = a, b
    if None in (al, ah, bl, bh):
        return None, None
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return _min(c), _max(c)


def zi(x):
    if _isinstance(x, SymInt):
        return x.e
    if _isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(_int(x))


def _ib(x):
    if _isinstance(x, SymInt):
        return x.lo, x.hi
    if _isinstance(x, SymBool):
        return 0, 1
    return _int(x), _int(x)


_INTY = (_int, )  # extended below


def _is_inty(x):
    return _isinstance(x, (_int, SymInt, SymBool)) and not (_isinstance(x, _float))


def floordiv_terms(a, b):
    """Python floor division for z3 ints (z3's div is Euclidean)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
    # floor(a/b): for b>0 Euclidean div is floor. for b<0: floor(a/b) = floor((-a)/(-b))
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymInt:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    # arithmetic
    def __add__(self, o):
        if _is_inty(o):
            l, h = _ib(o)
            return mk_int(self.e + zi(o), _badd(self.lo, l), _badd(self.hi, h))
        if _isinstance(o, _float):
            return to_float(self) + o
        return NotImplemented

    def __radd__(self, o):
        if _is_inty(o):
            l, h = _ib(o)
            return mk_int(zi(o) + self.e, _badd(self.lo, l), _badd(self.hi, h))
        if _isinstance(o, _float):
            return to_float(o) + to_float(self)
        return NotImplemented

    def __sub__(self, o):
        if _is_inty(o):
            l, h = _ib(o)
            return mk_int(self.e - zi(o), _badd(self.lo, _bneg(h)), _badd(self.hi, _bneg(l)))
        if _isinstance(o, _float):
            return to_float(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if _is_inty(o):
            l, h = _ib(o)
            return mk_int(zi(o) - self.e, _badd(l, _bneg(self.hi)), _badd(h, _bneg(self.lo)))
        if _isinstance(o, _float):
            return to_float(o) - to_float(self)
        return NotImplemented

    def __mul__(self, o):
        if _is_inty(o):
            l, h = _bmul((self.lo, self.hi), _ib(o))
            return mk_int(self.e * zi(o), l, h)
        if _isinstance(o, _float):
            return to_float(self) * o
        if _isinstance(o, (list, tuple, _str)):
            return o * self.__index__()
        return NotImplemented

    def __rmul__(self, o):
        if _is_inty(o):
            return self.__mul__(o)
        if _isinstance(o, _float):
            return to_float(o) * to_float(self)
        if _isinstance(o, (list, tuple, _str)):
            return o * self.__index__()
        return NotImplemented

    def __floordiv__(self, o):
        if _is_inty(o):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            l, h = _ib(o)
            lo = hi = None
            if None not in (self.lo, self.hi, l, h) and l > 0:
                c = (self.lo // l, self.lo // h, self.hi // l, self.hi // h)
                lo, hi = _min(c), _max(c)
            return mk_int(floordiv_terms(self.e, zi(o)), lo, hi)
        if _isinstance(o, (_float, SymFloat)):
            return to_float(floor(to_float(self) / o))
        return NotImplemented

    def __rfloordiv__(self, o):
        if _is_inty(o):
            return mk_int(zi(o), *_ib(o)).__floordiv__(self)
        return NotImplemented

    def __mod__(self, o):
        if _is_inty(o):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            q = floordiv_terms(self.e, zi(o))
            return mk_int(self.e - q * zi(o))
        if _isinstance(o, _float):
            return to_float(self) % o
        return NotImplemented

    def __rmod__(self, o):
        if _is_inty(o):
            return mk_int(zi(o), *_ib(o)).__mod__(self)
        if _isinstance(o, _float):
            return to_float(o) % to_float(self)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if _is_inty(o) or _isinstance(o, _float):
            return to_float(self) / to_float(o)
        return NotImplemented

    def __rtruediv__(self, o):
        if _is_inty(o) or _isinstance(o, _float):
            return to_float(o) / to_float(self)
        return NotImplemented

    def __pow__(self, n, mod=None):
        if _isinstance(n, _int) and 0 <= n <= 6 and mod is None:
            r = mk_int(z3.IntVal(1), 1, 1)
            for _ in _range(n):
                r = r * self
            if n == 2 and _isinstance(r, SymInt):
                r.lo = _max(0, r.lo) if r.lo is not None else None
            return r
        return NotImplemented

    def __neg__(self):
        return mk_int(-self.e, _bneg(self.hi), _bneg(self.lo))

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        lo = hi = None
        if self.lo is not None and self.hi is not None:
            hi = _max(_abs(self.lo), _abs(self.hi))
            lo = 0 if self.lo <= 0 <= self.hi else _min(_abs(self.lo), _abs(self.hi))
        return mk_int(z3.If(self.e >= 0, self.e, -self.e), lo, hi)

    def __lshift__(self, n):
        return self * (1 << n)

    def __rshift__(self, n):
        return self // (1 << n)

    # comparisons
    def _cmp(self, o, op):
        if _is_inty(o):
            return SymBool(op(self.e, zi(o)))
        if _isinstance(o, (_float, SymFloat)):
            return op(to_float(self), to_float(o))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __index__(self):
        return CTX.choose_value(self.e)

    __int__ = __index__

    def __float__(self):
        return _float(CTX.choose_value(self.e))

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __hash__(self):
        return hash(CTX.choose_value(self.e))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return CTX.token(self, "r") if CTX is not None else "<symint>"

    def __str__(self):
        return CTX.token(self, "d") if CTX is not None else "<symint>"

    def __format__(self, spec):
        return CTX.token(self, spec or "d")

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


numbers.Integral.register(SymInt)


def mk_int(e, lo=None, hi=None):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


def ite(c, a, b):
    """if-then-else that merges instead of forking, for values of like kind."""
    if not _isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if _is_inty(a) and _is_inty(b) and not (_isinstance(a, (SymBool, _bool)) and _isinstance(b, (SymBool, _bool))):
        (al, ah), (bl, bh) = _ib(a), _ib(b)
        return mk_int(z3.If(c.e, zi(a), zi(b)), _bmin(al, bl), _bmax(ah, bh))
    if _isinstance(a, (SymBool, _bool)) and _isinstance(b, (SymBool, _bool)):
        return SymBool(z3.If(c.e, zb(a), zb(b)))
    if _isinstance(a, (SymFloat, _float, SymInt, _int)) and _isinstance(b, (SymFloat, _float, SymInt, _int)):
        a, b = to_float(a), to_float(b)
        lo, hi = _bmin(a.lo, b.lo), _bmax(a.hi, b.hi)
        if a.n is not None and b.n is not None:
            k = _max(a.k, b.k)
            return SymFloat.dyadic(z3.If(c.e, a.num(k), b.num(k)), k, lo, hi)
        return SymFloat(z3.If(c.e, a.real(), b.real()), lo, hi)
    return a if _bool(c) else b


# --------------------------------------------------------------------------- floats

def _frac(x):
    return fractions.Fraction(x)


class SymFloat:
    """A finite double.  n/2**k when n is not None, else the real term r."""
    __slots__ = ("r", "n", "k", "lo", "hi", "q")

    def __init__(self, r, lo=None, hi=None, n=None, k=0, q=None):
        self.r = r
        self.q = q      # (numerator, denominator) of an exact quotient whose rounding this is
        self.n = n
        self.k = k
        self.lo = lo
        self.hi = hi

    @classmethod
    def dyadic(cls, n, k, lo=None, hi=None):
        return cls(None, lo, hi, n, k)

    def real(self):
        if self.r is None:
            if self.n is not None:
                self.r = z3.ToReal(self.n) / z3.RealVal(2 ** self.k) if self.k else z3.ToReal(self.n)
            else:
                num, den = self.q
                c = den.const()
                if c is not None:
                    t = num.real() / z3.RealVal(_str(c))
                else:
                    t = CTX.fresh_real("q")
                    CTX.add(t * den.real() == num.real())
                self.r = rounded(t, self.lo, self.hi).r
        return self.r

    def quotient_gap_ok(self, cden=1):
        """The rounding of the quotient cannot cross a rational with denominator cden that it does not equal."""
        num, den = self.q
        if self.lo is None or self.hi is None or num.n is None or den.n is None:
            return False
        if not (den.lo is not None and den.lo > 0 and den.hi is not None):
            return False
        mag = _max(_abs(self.lo), _abs(self.hi), 1)
        k = _max(num.k, den.k)
        # num/den - p/cden is a multiple of 1 / (den * 2**k * cden)
        return mag * 2 * den.hi * 2 ** k * cden < TWO53

    def num(self, k):
        d = k - self.k
        return self.n * z3.IntVal(2 ** d) if d else self.n

    def const(self):
        if self.n is not None:
            s = z3.simplify(self.n)
            if z3.is_int_value(s):
                return fractions.Fraction(s.as_long(), 2 ** self.k)
        return None

    @staticmethod
    def _coerce(o):
        if _isinstance(o, SymFloat):
            return o
        if _isinstance(o, (_int, _float, SymInt, SymBool)):
            return to_float(o)
        return None

    @staticmethod
    def _fits(lo, hi, k):
        if lo is None or hi is None:
            return False
        m = _max(_abs(lo), _abs(hi)) * 2 ** k
        return m <= TWO53

    def __add__(self, o, sub=False):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        olo, ohi = (o.lo, o.hi) if not sub else (_bneg(o.hi), _bneg(o.lo))
        lo, hi = _badd(self.lo, olo), _badd(self.hi, ohi)
        if self.n is not None and o.n is not None:
            k = _max(self.k, o.k)
            if self._fits(lo, hi, k):
                a, b = self.num(k), o.num(k)
                return SymFloat.dyadic(a - b if sub else a + b, k, lo, hi)
        t = self.real() - o.real() if sub else self.real() + o.real()
        return rounded(t, lo, hi)

    def __radd__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o.__add__(self)

    def __sub__(self, o):
        return self.__add__(o, sub=True)

    def __rsub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o.__add__(self, sub=True)

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        lo, hi = _bmul((self.lo, self.hi), (o.lo, o.hi))
        if self.n is not None and o.n is not None:
            a, b = self._reduced(), o._reduced()
            k = a.k + b.k
            if self._fits(lo, hi, k):
                return SymFloat.dyadic(a.n * b.n, k, lo, hi)
        return rounded(self.real() * o.real(), lo, hi)

    def __rmul__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o.__mul__(self)

    def _reduced(self):
        c = self.const()
        if c is not None:
            return _from_fraction(c)
        return self

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        oc = o.const()
        if oc is not None:
            if oc == 0:
                raise ZeroDivisionError("float division by zero")
            # exact division by +-2**j
            num, den = _abs(oc.numerator), oc.denominator
            if num & (num - 1) == 0:
                return self * _from_fraction(1 / oc)
        else:
            if _bool(o == 0):
                raise ZeroDivisionError("float division by zero")
        sc = self.const()
        if sc is not None and sc == 0:
            return _from_fraction(_frac(0))
        if oc is not None:
            if oc < 0:
                return (-self) / (-o)
            b = _bmul((self.lo, self.hi), (1 / oc, 1 / oc))
            return SymFloat(None, *_widen(*b), q=(self, o))
        b = (None, None)
        if o.lo == 0:
            o = SymFloat(o.r, _frac(1) / 2 ** o.k if o.n is not None else o.lo, o.hi, o.n, o.k, o.q)   # it is not zero
        if None not in (self.lo, self.hi, o.lo, o.hi) and (o.lo > 0 or o.hi < 0):
            b = _bmul((self.lo, self.hi), (_frac(1) / o.hi, _frac(1) / o.lo))
        return SymFloat(None, *_widen(*b), q=(self, o))

    def __rtruediv__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __floordiv__(self, o):
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        if self.n is not None and o2.n is not None:
            # exact float floor division of dyadics: floor(n1*2^k2 / (n2*2^k1)), Python's // on
            # floats is computed from an exact fmod.
            if _bool(o2 == 0):
                raise ZeroDivisionError("float floor division by zero")
            k = _max(self.k, o2.k)
            return to_float(mk_int(floordiv_terms(self.num(k), o2.num(k))))
        raise Unsupported("float floor division")

    def __rfloordiv__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o.__floordiv__(self)

    def __divmod__(self, o):
        q = self // o
        return q, self % o

    def __mod__(self, o):
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        q = self // o2
        return self - q * o2

    def __pow__(self, n, mod=None):
        if _isinstance(n, _float) and n.is_integer():
            n = _int(n)
        if _isinstance(n, _int) and 1 <= n <= 6:
            r = self
            for _ in _range(n - 1):
                r = r * self
            return r
        if n == 0.5:
            return m_sqrt(self)
        return NotImplemented

    def __neg__(self):
        lo, hi = _bneg(self.hi), _bneg(self.lo)
        if self.n is not None:
            return SymFloat.dyadic(-self.n, self.k, lo, hi)
        if self.r is None and self.q is not None:
            return SymFloat(None, lo, hi, q=(-self.q[0], self.q[1]))
        return SymFloat(-self.real(), lo, hi, q=(-self.q[0], self.q[1]) if self.q is not None else None)

    def __pos__(self):
        return self

    def __abs__(self):
        lo = hi = None
        if self.lo is not None and self.hi is not None:
            hi = _max(_abs(self.lo), _abs(self.hi))
            lo = _frac(0) if self.lo <= 0 <= self.hi else _min(_abs(self.lo), _abs(self.hi))
        if self.n is not None:
            return SymFloat.dyadic(z3.If(self.n >= 0, self.n, -self.n), self.k, lo, hi)
        r = self.real()
        return SymFloat(z3.If(r >= 0, r, -r), lo, hi)

    def _cmp(self, o, op):
        if _isinstance(o, _float) and not math.isfinite(o):
            return op(0.0, o)
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self.n is not None and o.n is not None:
            k = _max(self.k, o.k)
            return SymBool(op(self.num(k), o.num(k)))
        for a, b, flip in ((self, o, False), (o, self, True)):
            c = b.const()
            if c is not None and a.q is not None and a.quotient_gap_ok(c.denominator):
                num, den = a.q
                k = _max(num.k, den.k)
                l, r = num.num(k) * z3.IntVal(c.denominator), den.num(k) * z3.IntVal(c.numerator)
                return SymBool(op(r, l) if flip else op(l, r))
        return SymBool(op(self.real(), o.real()))

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)

    def __bool__(self):
        return _bool(self != 0)

    def _conc(self):
        raise Unsupported("concrete value of a symbolic float")

    def __float__(self):
        if self.n is not None:
            return CTX.choose_value(self.n) / 2 ** self.k
        return self._conc()

    def __int__(self):
        return trunc(self).__index__()

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, n=None):
        if n is None:
            return round_half_even(self)
        raise Unsupported("round to digits")

    def __hash__(self):
        return hash(self.__float__())

    def is_integer(self):
        return floor(self) == self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return CTX.token(self, "r") if CTX is not None else "<symfloat>"

    def __str__(self):
        return CTX.token(self, "r") if CTX is not None else "<symfloat>"

    def __format__(self, spec):
        return CTX.token(self, spec or "r")


numbers.Real.register(SymFloat)


def _from_fraction(f):
    k = f.denominator.bit_length() - 1
    assert f.denominator == 2 ** k
    return SymFloat.dyadic(z3.IntVal(f.numerator), k, f, f)


def to_float(x):
    if _isinstance(x, SymFloat):
        return x
    if _isinstance(x, SymBool):
        x = x._i()
    if _isinstance(x, SymInt):
        lo = None if x.lo is None else _frac(x.lo)
        hi = None if x.hi is None else _frac(x.hi)
        if SymFloat._fits(lo, hi, 0):
            return SymFloat.dyadic(x.e, 0, lo, hi)
        return rounded(z3.ToReal(x.e), lo, hi)
    f = _float(x)
    if not math.isfinite(f):
        raise Unsupported("non-finite float")
    return _from_fraction(_frac(f))


def rounded(t, lo=None, hi=None, quotient=False):
    """The double nearest to the exact real t, as a sound over-approximation."""
    CTX.note_rounding()
    v = CTX.fresh_real("fl")
    u = z3.RealVal("1/%d" % TWO53)
    tiny = z3.RealVal("1/%d" % (2 ** 1074))
    if CTX.round_abs and lo is not None and hi is not None:
        m = z3.RealVal(_str(_max(_abs(lo), _abs(hi)) / TWO53 + _frac(1) / 2 ** 1074))
        CTX.add(z3.And(v - t <= m, t - v <= m))
        return SymFloat(v, *_widen(lo, hi))
    at = z3.If(t >= 0, t, -t)
    CTX.add(z3.And(v - t <= u * at + tiny, t - v <= u * at + tiny))
    CTX.add(z3.And(z3.Implies(t >= 0, v >= 0), z3.Implies(t <= 0, v <= 0)))
    if lo is not None and hi is not None and _max(_abs(lo), _abs(hi)) < TWO53 // 2 and CTX.round_int_axioms:
        f = z3.ToInt(t)
        CTX.add(z3.And(v >= z3.ToReal(f), v <= z3.ToReal(f) + 1, z3.Implies(z3.ToReal(f) == t, v == t)))
    return SymFloat(v, *_widen(lo, hi))


def _widen(lo, hi):
    if lo is None or hi is None:
        return lo, hi
    m = _max(_abs(lo), _abs(hi)) / TWO53 + _frac(1) / 2 ** 1000
    return lo - m, hi + m


def _quotient_floor(x):
    """floor of a rounded quotient by a constant, as an integer term, or None."""
    if x.q is None or x.q[1].const() is None or x.q[0].n is None:
        return None
    num, c = x.q[0], x.q[1].const()
    if not x.quotient_gap_ok():
        # c may be the double nearest to a short decimal s: then num/s and the rounded num/c differ by
        # at most 2**-51 relatively, so the floors agree unless num/s is an integer (then: it or one less)
        s = c.limit_denominator(10 ** 7)
        if s == 0 or x.lo is None or x.hi is None or _abs(c - s) > s / TWO53:
            return None
        mag = _max(_abs(x.lo), _abs(x.hi), 1)
        if mag * 4 * s.numerator * 2 ** num.k >= TWO53:
            return None
        CTX.note_rounding()
        CTX.fresh += 1
        below = z3.Bool("below!%d" % CTX.fresh)
        a, b = num.n * z3.IntVal(s.denominator), z3.IntVal(s.numerator * 2 ** num.k)
        f = floordiv_terms(a, b)
        return z3.If(z3.And(below, f * b == a), f - 1, f)
    return floordiv_terms(num.n * z3.IntVal(c.denominator), z3.IntVal(c.numerator * 2 ** num.k))


def _fbounds_int(x):
    lo = None if x.lo is None else math.floor(x.lo)
    hi = None if x.hi is None else math.ceil(x.hi)
    return lo, hi


def floor(x):
    if not _isinstance(x, SymFloat):
        return x if _isinstance(x, SymInt) else math.floor(x)
    lo, hi = _fbounds_int(x)
    if x.n is not None:
        return mk_int(x.n / z3.IntVal(2 ** x.k) if x.k else x.n, lo, hi)
    f = _quotient_floor(x)
    if f is not None:
        return mk_int(f, lo, hi)
    return mk_int(z3.ToInt(x.real()), lo, hi)


def ceil(x):
    if not _isinstance(x, SymFloat):
        return x if _isinstance(x, SymInt) else math.ceil(x)
    lo, hi = _fbounds_int(x)
    if x.n is not None:
        return mk_int(-((-x.n) / z3.IntVal(2 ** x.k)) if x.k else x.n, lo, hi)
    f = _quotient_floor(-x) if x.q is not None else None
    if f is not None:
        return mk_int(-f, lo, hi)
    return mk_int(-z3.ToInt(-x.real()), lo, hi)


def trunc(x):
    if not _isinstance(x, SymFloat):
        return x if _isinstance(x, SymInt) else math.trunc(x)
    lo, hi = _fbounds_int(x)
    if x.n is not None:
        if not x.k:
            return mk_int(x.n, lo, hi)
        d = z3.IntVal(2 ** x.k)
        return mk_int(z3.If(x.n >= 0, x.n / d, -((-x.n) / d)), lo, hi)
    f = _quotient_floor(x)
    if f is not None:
        return mk_int(z3.If(x.q[0].n >= 0, f, -_quotient_floor(-x)), lo, hi)
    r = x.real()
    return mk_int(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)), lo, hi)


def round_half_even(x):
    if not _isinstance(x, SymFloat):
        return x if _isinstance(x, SymInt) else _round(x)
    f = floor(x)
    d = x - to_float(f) if x.n is not None else None
    half = z3.RealVal("1/2")
    diff = x.real() - z3.ToReal(zi(f))
    fe = zi(f)
    lo, hi = _fbounds_int(x)
    return mk_int(z3.If(diff < half, fe, z3.If(diff > half, fe + 1, z3.If(fe % 2 == 0, fe, fe + 1))), lo, hi)


def m_sqrt(x):
    if not _isinstance(x, (SymFloat, SymInt)):
        return math.sqrt(x)
    t = to_float(x)
    if _bool(t < 0):
        raise ValueError("math domain error")
    s = CTX.uf_real("sqrt_fl", t.real())
    tt = t.real()
    CTX.add(s >= 0)
    e = z3.RealVal("1/%d" % 2 ** 51)
    CTX.add(z3.And(s * s - tt <= e * tt, tt - s * s <= e * tt))
    return SymFloat(s, _frac(0), None)


# --------------------------------------------------------------------------- min / max / abs / round

def _any_sym(args):
    return any(_isinstance(a, (SymInt, SymFloat)) for a in args)


def sym_min(*args, **kw):
    if len(args) == 1:
        args = list(args[0])
        if not args or not _any_sym(args) or kw:
            return _min(args, **kw)
    elif kw or not _any_sym(args):
        return _min(*args, **kw)
    r = args[0]
    for a in args[1:]:
        r = ite(a < r, a, r)
    return r


def sym_max(*args, **kw):
    if len(args) == 1:
        args = list(args[0])
        if not args or not _any_sym(args) or kw:
            return _max(args, **kw)
    elif kw or not _any_sym(args):
        return _max(*args, **kw)
    r = args[0]
    for a in args[1:]:
        r = ite(a > r, a, r)
    return r


def sym_round(x, n=None):
    if _isinstance(x, SymFloat):
        return x.__round__(n)
    if _isinstance(x, SymInt):
        return x
    return _round(x) if n is None else _round(x, n)


# --------------------------------------------------------------------------- sets

def eq_term(a, b):
    """Equality of two values as bool or SymBool, never forking for numeric proxies."""
    if a is b:
        return True
    r = (a == b)
    if r is NotImplemented:
        return False
    return r


def or_terms(terms):
    out = []
    for t in terms:
        if _isinstance(t, SymBool):
            out.append(t.e)
        elif t:
            return True
    if not out:
        return False
    return SymBool(z3.Or(out) if len(out) > 1 else out[0])


def and_terms(terms):
    out = []
    for t in terms:
        if _isinstance(t, SymBool):
            out.append(t.e)
        elif not t:
            return False
    if not out:
        return True
    return SymBool(z3.And(out) if len(out) > 1 else out[0])


class SymSet:
    """A set that decides membership with the solver instead of hash codes.

    Iteration order is insertion order, or that of `_set_order` for objects that define it (a set's
    order is unspecified).  Elements are pairwise distinct on the current path.
    """

    def __init__(self, items=()):
        self._l = []
        for x in items:
            self.add(x)

    @classmethod
    def _of(cls, items):
        return cls(items)

    # queries
    def _has(self, x):
        return or_terms([eq_term(y, x) for y in self._l])

    def __contains__(self, x):
        return _bool(self._has(x))

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        l = list(self._l)
        if l and all(hasattr(x, "_set_order") for x in l):
            l.sort(key=lambda x: x._set_order)
        return iter(l)

    def __bool__(self):
        return len(self._l) > 0

    def _subset(self, other):
        return and_terms([other._has(x) for x in self._l])

    def __eq__(self, other):
        if not is_setlike(other):
            return NotImplemented
        o = as_symset(other)
        if len(o._l) != len(self._l):
            return False
        return self._subset(o)

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.e)) if _isinstance(r, SymBool) else not r

    def __le__(self, other): return self._subset(as_symset(other))
    def __ge__(self, other): return as_symset(other)._subset(self)

    def __lt__(self, other):
        o = as_symset(other)
        return len(self._l) < len(o._l) and self._subset(o)

    def __gt__(self, other):
        return as_symset(other) < self

    def issubset(self, other): return self <= other
    def issuperset(self, other): return self >= other

    def isdisjoint(self, other):
        o = as_symset(other)
        r = or_terms([o._has(x) for x in self._l])
        return SymBool(z3.Not(r.e)) if _isinstance(r, SymBool) else not r

    __hash__ = None

    # updates
    def add(self, x):
        if not _bool(self._has(x)):
            self._l.append(x)

    def _find(self, x):
        for i, y in enumerate(self._l):
            if _bool(eq_term(y, x)):
                return i
        return None

    def discard(self, x):
        i = self._find(x)
        if i is not None:
            del self._l[i]

    def remove(self, x):
        i = self._find(x)
        if i is None:
            raise KeyError(x)
        del self._l[i]

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop(0)

    def clear(self):
        self._l.clear()

    def update(self, *others):
        for o in others:
            for x in list(o):
                self.add(x)

    def difference_update(self, *others):
        for o in others:
            if o is self:
                self._l.clear()
                return
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        for o in others:
            o = as_symset(o)
            self._l = [x for x in self._l if x in o]

    def symmetric_difference_update(self, other):
        self._l = (self ^ as_symset(other))._l

    def copy(self):
        s = type(self)()
        s._l = list(self._l)
        return s

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        s = type(self)()
        s._l = [copy.deepcopy(x, memo) for x in self._l]
        return s

    def union(self, *others):
        s = self.copy()
        s.update(*others)
        return s

    def difference(self, *others):
        s = self.copy()
        s.difference_update(*others)
        return s

    def intersection(self, *others):
        s = self.copy()
        s.intersection_update(*others)
        return s

    def symmetric_difference(self, other):
        o = as_symset(other)
        s = type(self)()
        s._l = [x for x in self._l if x not in o] + [x for x in o._l if x not in self]
        return s

    def __or__(self, o): return self.union(o) if is_setlike(o) else NotImplemented
    def __sub__(self, o): return self.difference(o) if is_setlike(o) else NotImplemented
    def __and__(self, o): return self.intersection(o) if is_setlike(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if is_setlike(o) else NotImplemented
    def __ror__(self, o): return as_symset(o).union(self)
    def __rsub__(self, o): return as_symset(o).difference(self)
    def __rand__(self, o): return as_symset(o).intersection(self)
    def __rxor__(self, o): return as_symset(o).symmetric_difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __repr__(self):
        return "SymSet(%r)" % (self._l,)


collections.abc.MutableSet.register(SymSet)


def is_setlike(x):
    return _isinstance(x, (SymSet, _set, _frozenset, collections.abc.KeysView))


def as_symset(x):
    return x if _isinstance(x, SymSet) else SymSet(x)


# --------------------------------------------------------------------------- ranges

class SymRange:
    def __init__(self, start, stop, step=1):
        if _isinstance(step, SymInt):
            step = step.__index__()
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        n = 0
        while _bool(i < self.stop) if self.step > 0 else _bool(i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 200:
                raise Unsupported("range unrolling bound")

    def __len__(self):
        if self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // -self.step
        n = sym_max(n, 0)
        return n if _isinstance(n, _int) else n.__index__()

    def __reversed__(self):
        return reversed(list(self))

    def __getitem__(self, i):
        return list(self)[i]

    def __contains__(self, x):
        if self.step == 1:
            return _bool(and_terms([x >= self.start, x < self.stop]))
        return any(x == y for y in self)


# --------------------------------------------------------------------------- builtin shims

def _shim_meta(check):
    class Meta(type):
        def __instancecheck__(cls, o):
            return check(o)

        def __eq__(cls, other):
            return other is cls or other is cls._native

        def __hash__(cls):
            return hash(cls._native)

    return Meta


class IntShim(_int, metaclass=_shim_meta(lambda o: _isinstance(o, (_int, SymInt)))):
    _native = _int

    def __new__(cls, x=0, *args):
        if _isinstance(x, SymInt):
            return x
        if _isinstance(x, SymFloat):
            return trunc(x)
        if _isinstance(x, SymBool):
            return x._i()
        if _isinstance(x, _str) and CTX is not None and not args:
            v = CTX.untoken(x)
            if v is not None:
                if _isinstance(v, (SymInt,)):
                    return v
                raise ValueError("invalid literal for int()")
        if hasattr(x, "_sym_int"):
            return x._sym_int()
        return _int(x, *args)


class FloatShim(_float, metaclass=_shim_meta(lambda o: _isinstance(o, (_float, SymFloat)))):
    _native = _float

    def __new__(cls, x=0.0):
        if _isinstance(x, (SymInt, SymBool, SymFloat)):
            return to_float(x)
        if _isinstance(x, _str) and CTX is not None:
            v = CTX.untoken(x)
            if v is not None:
                return to_float(v)
        if hasattr(x, "_sym_float"):
            return x._sym_float()
        return _float(x)


class BoolShim(_int, metaclass=_shim_meta(lambda o: _isinstance(o, (_bool, SymBool)))):
    _native = _bool

    def __new__(cls, x=False):
        if _isinstance(x, SymBool):
            return x
        if _isinstance(x, (SymInt, SymFloat)):
            return x != 0
        return _bool(x)


class SetShim(SymSet, metaclass=_shim_meta(lambda o: _isinstance(o, (_set, SymSet)))):
    _native = _set

    def __new__(cls, items=()):
        return SymSet(items)


class FrozenSetShim(SymSet, metaclass=_shim_meta(lambda o: _isinstance(o, (_frozenset, SymSet)))):
    _native = _frozenset

    def __new__(cls, items=()):
        return SymSet(items)


class RangeShim(metaclass=_shim_meta(lambda o: _isinstance(o, (_range, SymRange)))):
    _native = _range

    def __new__(cls, *args):
        if any(_isinstance(a, SymInt) for a in args):
            if len(args) == 1:
                return SymRange(0, args[0])
            return SymRange(*args)
        return _range(*args)


class StrShim(_str, metaclass=_shim_meta(lambda o: _isinstance(o, _str) or getattr(type(o), "_is_symstr", False))):
    _native = _str

    def __new__(cls, x="", *args):
        if getattr(type(x), "_is_symstr", False):
            return x
        return _str(x, *args)


def sym_abs(x):
    return x.__abs__() if _isinstance(x, (SymInt, SymFloat)) else _abs(x)


_PERCENT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ 0#]*)(?P<width>\*|[0-9]*)(?:\.(?P<prec>\*|[0-9]*))?[hlL]?(?P<conv>.)", re.S)


def _is_sym(x):
    return _isinstance(x, (SymInt, SymFloat, SymBool))


def sym_join(s, parts):
    """s.join(parts), where parts may be symbolic texts."""
    if type(s) is not str:
        return s.join(parts)
    parts = list(parts)
    if not any(getattr(p, "_is_symstr", False) for p in parts):
        return s.join(parts)
    from . import symstr
    return symstr.SymStr(symstr.codes_of(s)).join(parts)


def sym_in(a, b):
    """a in b, where a may be a symbolic text and b a text."""
    if type(b) is str and getattr(a, "_is_symstr", False):
        from . import symstr
        return a in symstr.SymStr(symstr.codes_of(b))
    return a in b


def sym_mod(a, b):
    """a % b, where a text formats symbolic numbers as format() does."""
    if not _isinstance(a, str):
        return a % b
    values = list(b.values()) if type(b) is dict else list(b) if type(b) is tuple else [b]
    if not any(_is_sym(v) for v in values):
        return a % b
    if type(b) is dict:
        named, rest = b, []
    else:
        named, rest = {}, values
    out, at = [], 0
    rest = list(rest)
    for m in _PERCENT.finditer(a):
        out.append(a[at:m.start()])
        at = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue

        def number(text):
            return int(rest.pop(0)) if text == "*" else text
        width, prec = number(m.group("width")), m.group("prec")
        prec = number(prec) if prec is not None else None
        v = named[m.group("key")] if m.group("key") is not None else rest.pop(0)
        if not _is_sym(v):
            one = "%" + m.group("flags") + str(width) + ("" if prec is None else ".%s" % prec) + conv
            out.append(one % (v,))
            continue
        if conv in "sra" or (conv in "di" and _isinstance(v, SymFloat)):
            if m.group("flags") or width or prec:
                raise Unsupported("padded text of a symbolic number")
            v = v if conv in "sra" else v.__trunc__()
            out.append(repr(v) if conv == "r" else str(v))
            continue
        flags = m.group("flags")
        spec = ("+" if "+" in flags else " " if " " in flags else "") + ("0" if "0" in flags and width else "") + str(width)
        if "-" in flags or "#" in flags:
            raise Unsupported("format %r of a symbolic number" % m.group(0))
        if prec is not None:
            spec += ".%s" % (prec or "0")
        if conv in "eEfFgG":
            v = to_float(v)
        elif conv in "di":
            conv = "d"
        else:
            raise Unsupported("format %r of a symbolic number" % m.group(0))
        out.append(format(v, spec + conv))
    out.append(a[at:])
    if rest:
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


BUILTIN_SHIMS = {
    "__verif_mod__": sym_mod,
    "__verif_join__": sym_join,
    "__verif_in__": sym_in,
    "__verif_not_in__": lambda a, b: not sym_in(a, b),
    "int": IntShim,
    "float": FloatShim,
    "bool": BoolShim,
    "set": SetShim,
    "frozenset": FrozenSetShim,
    "range": RangeShim,
    "str": StrShim,
    "min": sym_min,
    "max": sym_max,
    "round": sym_round,
    "abs": sym_abs,
}
