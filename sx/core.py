"""Symbolic execution core: path exploration, symbolic integers and booleans.

Python integers are encoded as signed bit-vectors that are always wide enough
for the value (the width follows a tracked [lo, hi] interval), so arithmetic
never wraps and has exact Python semantics.
"""
import time

import z3


class EngineSignal(BaseException):
    """Steers paths; BaseException so code under test cannot swallow it."""


class PathAbort(EngineSignal):
    """The assumptions made so far are unsatisfiable: path is vacuous."""


class Unsupported(EngineSignal):
    """The encoding cannot follow this operation: path is inconclusive."""


class Budget(EngineSignal):
    """Time budget for the task is used up."""


MAX_BITS = 700


class Engine:
    """Depth-first exploration by re-execution with an incremental solver."""

    def __init__(self, rlimit=60_000_000, deadline=None, loop_limit=5000):
        self.rlimit = rlimit
        self.deadline = deadline
        self.loop_limit = loop_limit
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("rlimit", rlimit)
        self.n_queries = 0
        self.t_solver = 0.0
        self.n_unknown = 0
        self.n_branch = 0
        self.unknown_notes = []
        self.functions = set()
        self.fresh_cache = {}
        self.dec_text = {}
        self.bounds = {}
        self.trail = 0
        # stack shared between consecutive paths
        self.stack = []          # exprs asserted, one push each
        self.keep = 0            # prefix of stack known valid for this path
        self.pos = 0             # position within the stack on this path
        self.plan = []           # decisions to take (prefix)
        self.decisions = []      # Decision records of the current path
        self.model = None
        self.decided = {}
        self.fresh_counter = 0
        self.fs = None

    # -- solver access -------------------------------------------------
    def _check(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        t = time.time()
        self.n_queries += 1
        r = self.solver.check()
        self.t_solver += time.time() - t
        if r == z3.unknown:
            # second opinion: a fresh, non-incremental solver
            t = time.time()
            s = z3.Solver()
            s.set("rlimit", self.rlimit)
            s.add(self.solver.assertions())
            self.n_queries += 1
            r = s.check()
            self.t_solver += time.time() - t
            if r == z3.sat:
                self._alt_model = s.model()
            elif r == z3.unknown:
                self.n_unknown += 1
        else:
            self._alt_model = None
        return r

    def _get_model(self):
        return self._alt_model if self._alt_model is not None \
            else self.solver.model()

    def _assert(self, expr):
        """Append expr to the path condition (aligned with the stack)."""
        self.trail = hash((self.trail, expr.get_id()))
        if self.pos < self.keep:
            if not self.stack[self.pos].eq(expr):
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            return
        self._truncate(self.pos)
        self.solver.push()
        self.solver.add(expr)
        self.stack.append(expr)
        self.pos += 1
        self.keep = self.pos

    def _truncate(self, n):
        k = len(self.stack) - n
        if k > 0:
            self.solver.pop(k)
            del self.stack[n:]
        if self.keep > n:
            self.keep = n

    def ensure_model(self):
        if self.model is None:
            self._truncate(self.pos)
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Unsupported("solver unknown on path feasibility")
            self.model = self._get_model()
        return self.model

    def upper(self, x, hi):
        """A bound on symbolic int x, tighter than hi where the path
        condition implies one (solver query, cached per path prefix)."""
        key = (x.e.get_id(), self.trail)
        r = self.bounds.get(key)
        if r is not None:
            return r[0]
        best = hi
        w = x.e.size()
        self.ensure_model()
        cur = self.model_int(x.e)
        self._truncate(self.pos)
        for b in (63, 64, 127, 255):
            if b >= hi:
                break
            if b < cur:
                continue
            self.solver.push()
            self.solver.add(x.e > b)
            r = self._check()
            self.solver.pop()
            if r == z3.unsat:
                best = b
                break
        self.bounds[key] = (best, x)
        return best

    def model_true(self, expr):
        v = self.model.eval(expr, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        return z3.is_true(v)

    def model_int(self, expr):
        v = self.model.eval(expr, model_completion=True)
        return v.as_signed_long()

    # -- path conditions -------------------------------------------------
    def assume(self, cond):
        e = as_bool_expr(cond)
        if e is True:
            return
        if e is False:
            raise PathAbort()
        self._assert(e)
        if self.model is not None and not self.model_true(e):
            self.model = None
        self.decided[e.get_id()] = True

    def axiom(self, e):
        """A definitional fact (never restricts inputs)."""
        self._assert(e)
        if self.model is not None and not self.model_true(e):
            self.model = None

    def fork(self, e):
        """Decide boolean expression e on this path."""
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        if z3.is_not(e):
            neg = True
            e = e.arg(0)
        d = self.decided.get(e.get_id())
        if d is not None:
            return d != neg
        i = len(self.decisions)
        flipped = False
        if i < len(self.plan):
            p = self.plan[i]
            take = p.v
            flipped = isinstance(p, _Flip)
        else:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget()
            self.ensure_model()
            take = self.model_true(e)
        self.n_branch += 1
        level = self.pos
        self._assert(e if take else z3.Not(e))
        rec = ["b", level, e, take]
        if flipped:
            rec.append(True)
        self.decisions.append(rec)
        self.decided[e.get_id()] = take
        self._keepalive.append(e)
        return take != neg

    def choose(self, e, what="value", limit=None):
        """Concretise signed bit-vector expression e (multi-way fork)."""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        d = self.decided.get(("c", e.get_id()))
        if d is not None:
            return d
        i = len(self.decisions)
        if i < len(self.plan):
            val, tried = self.plan[i]
        else:
            self.ensure_model()
            val = self.model_int(e)
            tried = ()
        self.n_branch += 1
        if limit is not None and len(tried) >= limit:
            raise Unsupported("too many values for %s" % what)
        level = self.pos
        self._assert(e == val)
        self.decisions.append(["c", level, e, val, tuple(tried) + (val,)])
        self.decided[("c", e.get_id())] = val
        self._keepalive.append(e)
        return val

    # -- exploration -----------------------------------------------------
    def explore(self, run, on_path, max_paths=None):
        """run() executes the harness once. on_path(kind, info) is called at
        the end of each path while the path condition is still asserted."""
        self.plan = []
        n = 0
        model = None
        while True:
            self.decisions = []
            self.decided = {}
            self._keepalive = []
            self.pos = 0
            self.trail = 0
            self.model = model
            self._alt_model = None
            self.fresh_counter = 0
            kind, info = "ok", None
            try:
                run()
                self.ensure_model()
            except PathAbort:
                kind = "abort"
            except Unsupported as x:
                kind, info = "unsupported", str(x)
            except RecursionError:
                kind, info = "unsupported", "recursion"
            n += 1
            self._truncate(self.pos)
            on_path(kind, info)
            if max_paths is not None and n >= max_paths:
                return "path limit"
            # backtrack
            decs = self.decisions
            model = None
            found = False
            while decs:
                d = decs.pop()
                self._truncate(d[1])
                self.solver.push()
                if d[0] == "b":
                    if len(d) > 4:          # already flipped
                        self.solver.pop()
                        continue
                    nxt = not d[3]
                    e = d[2] if nxt else z3.Not(d[2])
                else:
                    e = z3.And(*[d[2] != v for v in d[4]])
                self.solver.add(e)
                r = self._check()
                if r == z3.sat:
                    model = self._get_model()
                    if d[0] == "b":
                        self.plan = self._plan(decs) + [_Flip(nxt)]
                    else:
                        v = model.eval(d[2],
                                       model_completion=True).as_signed_long()
                        self.plan = self._plan(decs) + [(v, d[4])]
                    found = True
                    self.solver.pop()
                    break
                self.solver.pop()
                if r == z3.unknown:
                    self.unknown_notes.append("branch feasibility unknown")
            if not found:
                return None

    def _plan(self, decs):
        out = []
        for d in decs:
            if d[0] == "b":
                out.append(_Flip(d[3]) if len(d) > 4 else _Raw(d[3]))
            else:
                out.append((d[3], d[4][:-1]))
        return out


class _Flip:
    """Planned decision whose other side is already done."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class _Raw:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


_simp_cache = {}


def simp(e):
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is None:
        if len(_simp_cache) > 200000:
            _simp_cache.clear()
        s = z3.simplify(e)
        _simp_cache[k] = (s, e)
        return s
    return r[0]


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def eng():
    if ENGINE is None:
        raise RuntimeError("symbolic value used outside the engine")
    return ENGINE


# ---------------------------------------------------------------------------
# booleans

HASHED = [False]        # has any symbolic value been used as a key?


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()


def as_bool_expr(x):
    """-> True, False or a z3 Bool expression."""
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        r = x != 0
        return as_bool_expr(r)
    if z3.is_expr(x):
        return x
    return bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(x):
    x = as_bool_expr(x)
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def b_and(*xs):
    out = []
    for x in xs:
        x = as_bool_expr(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        x = as_bool_expr(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().fork(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)),
                      0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return mkbool(b_and(self, o))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return mkbool(b_or(self, o))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool or type(o) is SymBool:
            oe = as_bool_expr(o)
            if oe is True:
                return mkbool(b_not(self))
            if oe is False:
                return self
            return mkbool(z3.Xor(self.e, oe))
        return self._int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else mkbool(b_not(self))
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        return self._int() == o

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return mkbool(b_not(r))

    def __repr__(self):
        return "<SymBool>"

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _delegate(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)
    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod lshift "
           "rlshift rshift rrshift pow rpow lt le gt ge neg pos invert abs "
           "truediv rtruediv divmod rdivmod").split():
    setattr(SymBool, "__%s__" % _n, _delegate("__%s__" % _n))


# ---------------------------------------------------------------------------
# integers

def bits_for(lo, hi):
    """Signed width that holds every value in lo..hi."""
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    return n + 1


def _fit(e, lo, hi):
    """Resize e (signed) to the natural width of [lo, hi]."""
    w = bits_for(lo, hi)
    n = e.size()
    if n > w:
        return z3.Extract(w - 1, 0, e)
    if n < w:
        return z3.SignExt(w - n, e)
    return e


def mkint(e, lo, hi):
    if lo > hi:
        raise PathAbort()
    if lo == hi:
        return lo
    if max(hi.bit_length(), (-lo).bit_length()) > MAX_BITS:
        raise Unsupported("integer wider than %d bits" % MAX_BITS)
    e = simp(_fit(e, lo, hi))
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def _ext(x, w):
    """Signed expression of width w for int / SymInt."""
    if isinstance(x, int) and type(x) is not SymInt and not _is_symbool(x):
        return z3.BitVecVal(x, w)
    n = x.e.size()
    return z3.SignExt(w - n, x.e) if w > n else x.e


def _is_symbool(x):
    return type(x) is SymBool


def _flt(x):
    from . import flt
    return flt.Exact(x, 1)


def toint(x):
    """Normalise to int | SymInt, or None if not an integer."""
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x._int()
    if isinstance(x, int) and t is not SymInt:
        return int.__int__(x) if isinstance(x, int) and issubclass(t, int) \
            else None
    return None


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return x, x


def ite_int(c, a, b):
    c = as_bool_expr(c)
    if c is True:
        return a
    if c is False:
        return b
    a, b = toint(a), toint(b)
    al, ah = rng(a)
    bl, bh = rng(b)
    if al == ah == bl == bh:
        return al
    lo, hi = min(al, bl), max(ah, bh)
    w = bits_for(lo, hi)
    return mkint(z3.If(c, _ext(a, w), _ext(b, w)), lo, hi)


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi", "__weakref__")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    # -- concretisation
    def concrete(self, limit=4096):
        return eng().choose(self.e, "int", limit)

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __hash__(self):
        HASHED[0] = True
        return object.__hash__(self)

    def __float__(self):
        return float(self.concrete())

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __repr__(self):
        return "<SymInt %d..%d>" % (self.lo, self.hi)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __str__(self):
        return str(self.concrete())

    # -- arithmetic
    def _bin(self, o, op, swap=False):
        if isinstance(o, float):
            from . import flt
            return flt.mixed(self, o, op, swap)
        o = toint(o)
        if o is None:
            return NotImplemented
        return op(o, self) if swap else op(self, o)

    def __add__(self, o):
        return self._bin(o, i_add)

    def __radd__(self, o):
        return self._bin(o, i_add, True)

    def __sub__(self, o):
        return self._bin(o, i_sub)

    def __rsub__(self, o):
        return self._bin(o, i_sub, True)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes) or hasattr(o, "_sx_repeat"):
            return i_repeat(o, self)
        return self._bin(o, i_mul)

    def __rmul__(self, o):
        if type(o) in (str, list, tuple, bytes) or hasattr(o, "_sx_repeat"):
            return i_repeat(o, self)
        return self._bin(o, i_mul, True)

    def __and__(self, o):
        return self._bin(o, i_and)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, i_or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, i_xor)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._bin(o, i_shl)

    def __rlshift__(self, o):
        return self._bin(o, i_shl, True)

    def __rshift__(self, o):
        return self._bin(o, i_shr)

    def __rrshift__(self, o):
        return self._bin(o, i_shr, True)

    def __floordiv__(self, o):
        return self._bin(o, i_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, i_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, i_mod)

    def __rmod__(self, o):
        return self._bin(o, i_mod, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        from . import flt
        if isinstance(o, float):
            return flt.SymFloat(self, 1) / o
        o = toint(o)
        return NotImplemented if o is None else flt.divide(self, o)

    def __rtruediv__(self, o):
        from . import flt
        o = toint(o)
        if o is None:
            return NotImplemented
        return flt.divide(o, self)

    def __pow__(self, o, m=None):
        r = self._bin(o, i_pow)
        return r if m is None or r is NotImplemented else r % m

    def __rpow__(self, o, m=None):
        return self._bin(o, i_pow, True)

    def __neg__(self):
        return i_sub(0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return i_sub(-1, self)

    def __abs__(self):
        return ite_int(i_lt(self, 0), i_sub(0, self), self)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    # -- comparison
    def __eq__(self, o):
        o2 = toint(o)
        if o2 is None:
            if isinstance(o, float):
                return _flt(self).__eq__(o)
            return NotImplemented
        return i_eq(self, o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(b_not(r))

    def __lt__(self, o):
        o2 = toint(o)
        if o2 is None:
            return _flt(self) < o if isinstance(o, float) \
                else NotImplemented
        return i_lt(self, o2)

    def __gt__(self, o):
        o2 = toint(o)
        if o2 is None:
            return _flt(self) > o if isinstance(o, float) \
                else NotImplemented
        return i_lt(o2, self)

    def __le__(self, o):
        o2 = toint(o)
        if o2 is None:
            return _flt(self) <= o if isinstance(o, float) \
                else NotImplemented
        return mkbool(b_not(i_lt(o2, self)))

    def __ge__(self, o):
        o2 = toint(o)
        if o2 is None:
            return _flt(self) >= o if isinstance(o, float) \
                else NotImplemented
        return mkbool(b_not(i_lt(self, o2)))

    # -- int methods
    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        r = 0
        for k in range(a.hi.bit_length()):
            bit = z3.Extract(k, k, a.e) == 1
            r = ite_int(mkbool(bit), k + 1, r)
        return r

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        r = 0
        for k in range(a.hi.bit_length()):
            r = r + ite_int(mkbool(z3.Extract(k, k, a.e) == 1), 1, 0)
        return r

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def to_bytes(self, *a, **k):
        return self.concrete().to_bytes(*a, **k)


_REPEAT = [None]


def i_repeat(seq, n):
    return _REPEAT[0](seq, n)


def i_add(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al == ah and bl == bh:
        return al + bl
    lo, hi = al + bl, ah + bh
    w = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    return mkint(_ext(a, w) + _ext(b, w), lo, hi)


def i_sub(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al == ah and bl == bh:
        return al - bl
    lo, hi = al - bh, ah - bl
    w = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    return mkint(_ext(a, w) - _ext(b, w), lo, hi)


def i_mul(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    if lo == hi:
        return lo
    w = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    if w > MAX_BITS:
        raise Unsupported("wide product")
    return mkint(_ext(a, w) * _ext(b, w), lo, hi)


def _mask_hi(*xs):
    return (1 << max(x.bit_length() for x in xs)) - 1


def _bitwise(a, b, f, lohi):
    (al, ah), (bl, bh) = rng(a), rng(b)
    w = max(bits_for(al, ah), bits_for(bl, bh))
    lo, hi = lohi(al, ah, bl, bh)
    return mkint(f(_ext(a, w), _ext(b, w)), lo, hi)


def i_and(a, b):
    def lohi(al, ah, bl, bh):
        if al >= 0 and bl >= 0:
            return 0, min(ah, bh)
        if al >= 0:
            return 0, ah
        if bl >= 0:
            return 0, bh
        m = _mask_hi(al, ah, bl, bh)
        return -m - 1, max(ah, bh, 0)
    return _bitwise(a, b, lambda x, y: x & y, lohi)


def i_or(a, b):
    def lohi(al, ah, bl, bh):
        m = _mask_hi(al, ah, bl, bh)
        if al >= 0 and bl >= 0:
            return max(al, bl), m
        return -m - 1, m
    return _bitwise(a, b, lambda x, y: x | y, lohi)


def i_xor(a, b):
    def lohi(al, ah, bl, bh):
        m = _mask_hi(al, ah, bl, bh)
        if al >= 0 and bl >= 0:
            return 0, m
        return -m - 1, m
    return _bitwise(a, b, lambda x, y: x ^ y, lohi)


def _need_nonneg(n, exc):
    if rng(n)[1] < 0 or (rng(n)[0] < 0 and bool(i_lt(n, 0))):
        raise exc
    return n


def i_shl(a, n):
    _need_nonneg(n, ValueError("negative shift count"))
    (al, ah), (nl, nh) = rng(a), rng(n)
    nl = max(nl, 0)
    if nl == nh:
        if nl > MAX_BITS:
            raise Unsupported("wide shift")
        return i_mul(a, 1 << nl)
    if nh > 64:
        nh = eng().upper(n, nh)
        if nh < rng(n)[1]:
            w = bits_for(0, nh)
            n = SymInt(z3.Extract(w - 1, 0, n.e), 0, nh) \
                if w < n.e.size() else SymInt(n.e, 0, nh)
    if nh + max(ah.bit_length(), al.bit_length()) > MAX_BITS:
        n = n.concrete(256)
        return i_shl(a, n)
    lo = min(al << nl, al << nh)
    hi = max(ah << nl, ah << nh)
    w = max(bits_for(lo, hi), bits_for(al, ah), bits_for(*rng(n)))
    return mkint(_ext(a, w) << _ext(n, w), lo, hi)


def i_shr(a, n):
    _need_nonneg(n, ValueError("negative shift count"))
    (al, ah), (nl, nh) = rng(a), rng(n)
    nl = max(nl, 0)
    if type(n) is SymInt and rng(n)[0] < 0:
        w = bits_for(0, nh)
        n = SymInt(z3.Extract(w - 1, 0, n.e), 0, nh) \
            if w < n.e.size() else SymInt(n.e, 0, nh)
    lo = min(al >> nl, al >> nh)
    hi = max(ah >> nl, ah >> nh)
    w = max(bits_for(al, ah), bits_for(*rng(n)))
    return mkint(_ext(a, w) >> _ext(n, w), lo, hi)


def i_floordiv(a, b):
    if bool(i_eq(b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al == ah and bl == bh:
        return al // bl
    if bl == bh and bl > 0 and bl & (bl - 1) == 0:
        return i_shr(a, bl.bit_length() - 1)
    m = max(abs(al), abs(ah))
    w = max(bits_for(-m, m), bits_for(bl, bh)) + 1
    x, y = _ext(a, w), _ext(b, w)
    if al >= 0 and bl >= 1:
        return mkint(z3.UDiv(x, y), 0 if bh > bl else al // bl, ah // bl)
    q = x / y
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    return mkint(z3.If(adj, q - 1, q), -m - 1, m)


def i_mod(a, b):
    if bool(i_eq(b, 0)):
        raise ZeroDivisionError("integer modulo by zero")
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al == ah and bl == bh:
        return al % bl
    if bl == bh and bl > 0 and bl & (bl - 1) == 0:
        return i_and(a, bl - 1)
    m = max(abs(al), abs(ah), abs(bl), abs(bh))
    w = bits_for(-m, m) + 1
    x, y = _ext(a, w), _ext(b, w)
    if al >= 0 and bl >= 1:
        return mkint(z3.URem(x, y), 0, min(bh - 1, ah))
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    return mkint(z3.If(adj, r + y, r), min(0, bl + 1), max(0, bh - 1))


def i_pow(a, n):
    nl, nh = rng(n)
    if nh < 0 or (nl < 0 and bool(i_lt(n, 0))):
        # float result; leave the encoding
        av = a if type(a) is int else a.concrete(16)
        nv = n if type(n) is int else n.concrete(16)
        return av ** nv
    if type(a) is int and a == 2:
        return i_shl(1, n)
    if type(a) is int and a in (0, 1):
        return ite_int(i_eq(n, 0), 1, a)
    if type(a) is int and a > 0 and a & (a - 1) == 0:
        return i_shl(1, i_mul(n, a.bit_length() - 1))
    if type(n) is not int:
        n = n.concrete(64)
    r = 1
    for _ in range(n):
        r = i_mul(r, a)
    return r


def i_eq(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al == ah and bl == bh:
        return al == bl
    if ah < bl or bh < al:
        return False
    w = max(bits_for(al, ah), bits_for(bl, bh))
    return mkbool(simp(_ext(a, w) == _ext(b, w)))


def i_lt(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    if ah < bl:
        return True
    if al >= bh:
        return False
    w = max(bits_for(al, ah), bits_for(bl, bh))
    return mkbool(simp(_ext(a, w) < _ext(b, w)))


def i_le(a, b):
    return mkbool(b_not(i_lt(b, a)))


def _tighten(r, lo, hi):
    if type(r) is SymInt and (lo > r.lo or hi < r.hi):
        return mkint(r.e, max(lo, r.lo), min(hi, r.hi))
    return r


def i_min(a, b):
    a, b = toint(a), toint(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    return _tighten(ite_int(i_lt(b, a), b, a), min(al, bl), min(ah, bh))


def i_max(a, b):
    a, b = toint(a), toint(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    return _tighten(ite_int(i_lt(a, b), b, a), max(al, bl), max(ah, bh))
