"""Floating-point numbers that depend on symbolic integers.

A SymFloat stands for the IEEE double nearest to x / y, where x is a symbolic
integer and y a positive constant. What the encoding does not cover is made
concrete (a fork per value, as for integers)."""
import math
import operator
from fractions import Fraction

from .core import (SymBool, SymInt, i_add, i_and, i_eq, i_floordiv, i_lt,
                   i_mod, i_mul, i_pow, i_shl, i_shr, i_sub, ite_int, mkbool, mkint, b_and,
                   b_not, b_or, as_bool_expr, rng)

EXACT = 2 ** 53


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def r53(x):
    """x rounded to 53 significant bits, ties to even."""
    lo, hi = rng(x)
    if -EXACT <= lo and hi <= EXACT:
        return x
    if type(x) is int:
        return int(float(x))
    if hi <= 0:
        return i_sub(0, r53(i_sub(0, x)))
    if lo < 0:
        neg = i_lt(x, 0)
        mag = ite_int(neg, i_sub(0, x), x)
        if type(mag) is SymInt:
            mag = mkint(mag.e, 0, max(hi, -lo))
        r = r53(mag)
        return ite_int(neg, i_sub(0, r), r)
    r = x
    n = hi.bit_length()
    for k in range(1, n - 53 + 1):
        q = i_shr(x, k)
        rem = i_and(x, 2 ** k - 1)
        half = 2 ** (k - 1)
        up = mkbool(b_or(as_bool_expr(i_lt(half, rem)),
                         b_and(as_bool_expr(i_eq(rem, half)),
                               as_bool_expr(i_eq(i_and(q, 1), 1)))))
        v = i_shl(i_add(q, ite_int(up, 1, 0)), k)
        r = ite_int(i_lt(x, 2 ** (53 + k - 1)), r, v)
    return r


def interval(c):
    """The reals that round to the double c: low, high, ends included?"""
    if c == 0.0 or math.isinf(c) or math.isnan(c):
        return None
    prev, nxt = math.nextafter(c, -math.inf), math.nextafter(c, math.inf)
    if math.isinf(prev) or math.isinf(nxt) or abs(c) < 1e-300:
        return None
    lo = (Fraction(c) + Fraction(prev)) / 2
    hi = (Fraction(c) + Fraction(nxt)) / 2
    m = int(math.frexp(c)[0] * 2 ** 53)
    return lo, hi, m % 2 == 0


class SymFloat:
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y

    @property
    def __class__(self):
        return float

    def concrete(self):
        x = self.x
        return (x if type(x) is int else x.concrete(64)) / self.y

    def __float__(self):
        return self.concrete()

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return bool(self != 0)

    # -- to integers
    def floor(self):
        x, y = self.x, self.y
        if pow2(y):
            return i_shr(r53(x), y.bit_length() - 1)
        lo, hi = rng(x)
        if -EXACT < lo and hi < EXACT and y < EXACT:
            return i_floordiv(x, y)
        return math.floor(self.concrete())

    def trunc(self):
        if rng(self.x)[0] >= 0:
            return self.floor()
        neg = SymFloat(i_sub(0, self.x), self.y)
        return ite_int(i_lt(self.x, 0), i_sub(0, neg.floor()), self.floor())

    def __ceil__(self):
        return i_sub(0, SymFloat(i_sub(0, self.x), self.y).floor())

    __floor__ = floor
    __trunc__ = trunc

    def __int__(self):
        v = self.trunc()
        return v if type(v) is int else v.concrete()

    def is_integer(self):
        m, k = self.dyadic()
        return i_eq(i_and(m, 2 ** k - 1), 0)

    def __round__(self, n=None):
        if n is not None:
            return round(self.concrete(), n)
        m, k = self.dyadic()
        if k == 0:
            return m
        q, rem = i_shr(m, k), i_and(m, 2 ** k - 1)
        half = 2 ** (k - 1)
        up = mkbool(b_or(as_bool_expr(i_lt(half, rem)),
                         b_and(as_bool_expr(i_eq(rem, half)),
                               as_bool_expr(i_eq(i_and(q, 1), 1)))))
        return i_add(q, ite_int(up, 1, 0))

    # -- arithmetic
    def dyadic(self):
        """m, k with value m / 2**k exactly."""
        if pow2(self.y):
            return r53(self.x), self.y.bit_length() - 1
        return _dyadic(self.concrete())

    def _op(self, o, f, swap=False):
        o = _dyadic(o)
        if o is None:
            return NotImplemented
        a, b = self.dyadic(), o
        if swap:
            a, b = b, a
        return f(a, b)

    def __add__(self, o):
        return self._op(o, _add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, _sub)

    def __rsub__(self, o):
        return self._op(o, _sub, True)

    def __mul__(self, o):
        return self._op(o, _mul)

    __rmul__ = __mul__

    def __neg__(self):
        return SymFloat(i_sub(0, self.x), self.y)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(i_lt(self.x, 0)) else self

    def __truediv__(self, o):
        if type(o) in (SymInt, SymBool, SymFloat):
            o = o.concrete() if type(o) is SymFloat else int(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        f = Fraction(o)
        if f > 0 and pow2(f.numerator):
            m, k = self.dyadic()
            return SymFloat(i_mul(m, f.denominator), 2 ** k * f.numerator)
        return self.concrete() / o

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __floordiv__(self, o):
        return self.concrete() // o

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        return self.concrete() % o

    def __rmod__(self, o):
        return o % self.concrete()

    def __pow__(self, o):
        return self.concrete() ** o

    def __rpow__(self, o):
        return o ** self.concrete()

    # -- comparison
    def _cmp(self, o, kind):
        if type(o) is float or type(o) is int:
            try:
                exact = float(o) == o
            except OverflowError:
                exact = False
            if not pow2(self.y) and exact:
                r = self._against(float(o), kind)
                if r is not None:
                    return r
        b = _dyadic(o, True)
        if b is None:
            return NotImplemented
        (m, k), (n, j) = self.dyadic(), b
        p, q = i_shl(m, j), i_shl(n, k)
        if kind == "eq":
            return i_eq(p, q)
        if kind == "lt":
            return i_lt(p, q)
        return i_lt(q, p)

    def _against(self, c, kind):
        if c == 0.0:
            return i_eq(self.x, 0) if kind == "eq" else i_lt(self.x, 0) \
                if kind == "lt" else i_lt(0, self.x)
        t = interval(c)
        if t is None:
            return None
        lo, hi, closed = t
        lo, hi = lo * self.y, hi * self.y
        # below: x / y rounds to less than c; above: to more
        below = i_lt(self.x, math.ceil(lo)) if closed else \
            i_lt(self.x, math.floor(lo) + 1)
        above = i_lt(math.floor(hi), self.x) if closed else \
            i_lt(math.ceil(hi) - 1, self.x)
        if kind == "lt":
            return below
        if kind == "gt":
            return above
        return mkbool(b_and(b_not(as_bool_expr(below)),
                            b_not(as_bool_expr(above))))

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else mkbool(b_not(as_bool_expr(r)))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __le__(self, o):
        r = self._cmp(o, "gt")
        return r if r is NotImplemented else mkbool(b_not(as_bool_expr(r)))

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else mkbool(b_not(as_bool_expr(r)))


class Exact(SymFloat):
    """An integer compared with a float: no rounding."""
    __slots__ = ()

    def dyadic(self):
        return self.x, 0


def _dyadic(o, exact=False):
    """m, k of a number; None if it is none. An integer is first rounded,
    as arithmetic with a float does, unless exact."""
    t = type(o)
    if t is SymFloat:
        return o.dyadic()
    if t is SymBool:
        o = o._int()
        t = type(o)
    if t is SymInt:
        return (o if exact else r53(o)), 0
    if t is int or t is bool:
        return (int(o) if exact else int(float(o))), 0
    if t is float and not (math.isinf(o) or math.isnan(o)):
        n, d = o.as_integer_ratio()
        return n, d.bit_length() - 1
    return None


def _add(a, b):
    (m, k), (n, j) = a, b
    return mkfloat(i_add(i_shl(m, j), i_shl(n, k)), 2 ** (k + j))


def _sub(a, b):
    (m, k), (n, j) = a, b
    return mkfloat(i_sub(i_shl(m, j), i_shl(n, k)), 2 ** (k + j))


def _mul(a, b):
    (m, k), (n, j) = a, b
    return mkfloat(i_mul(m, n), 2 ** (k + j))


def mkfloat(x, y):
    if type(x) is int:
        return x / y
    return SymFloat(x, y)


def divide(x, y):
    """x / y for integers."""
    if type(y) is SymInt:
        y = y.concrete(128)
    if type(x) is int or y == 0:
        return x / y
    if y < 0:
        x, y = i_sub(0, x), -y
    return SymFloat(x, y)


OPS = {i_add: _add, i_sub: _sub, i_mul: _mul}
CONCRETE = {i_floordiv: operator.floordiv, i_mod: operator.mod,
            i_pow: operator.pow}


def mixed(x, o, op, swap):
    """An integer operation with one floating-point operand."""
    if op in OPS:
        a, b = _dyadic(x), _dyadic(o)
        if b is not None:
            return OPS[op](b, a) if swap else OPS[op](a, b)
    elif op not in CONCRETE:
        return NotImplemented
    f = CONCRETE.get(op, {i_add: operator.add, i_sub: operator.sub,
                          i_mul: operator.mul}.get(op))
    x = x.concrete(64)
    return f(o, x) if swap else f(x, o)
