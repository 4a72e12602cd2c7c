"""Symbolic strings.

A string is a tuple of characters (int code point, or Ch: 8-bit expression
plus the set of code points it can take) and a length (int or SymInt); the
string is the first `length` characters.  Operations are built without
forking wherever Python's result can be expressed in one term.
"""
import z3

from . import core
from .core import (Sym, SymBool, SymInt, Unsupported, as_bool_expr, b_and,
                   b_not, b_or, eng, i_add, i_eq, i_le, i_lt, i_max, i_min,
                   i_sub, ite_int, mkbool, mkint, rng, simp, toint)

WS = frozenset([9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0])
WS_MASK = sum(1 << c for c in WS)
LOWER_MASK = sum(1 << c for c in range(97, 123))
UPPER_MASK = sum(1 << c for c in range(65, 91))
DIGIT_MASK = sum(1 << c for c in range(48, 58))
MAXLEN = 4096


class Ch:
    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom


def dom_of(c):
    return (1 << c) if type(c) is int else c.dom


def ch_expr(c):
    if type(c) is int:
        if c > 255:
            raise Unsupported("non-latin character in symbolic string")
        return z3.BitVecVal(c, 8)
    return c.e


def ch_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    if dom_of(a) & dom_of(b) == 0:
        return False
    return ch_expr(a) == ch_expr(b)


def ch_in(c, mask):
    """Is character c in the set given by bit mask?"""
    if type(c) is int:
        return bool(mask >> c & 1)
    inter = c.dom & mask
    if inter == 0:
        return False
    if inter == c.dom:
        return True
    outer = c.dom & ~mask
    if _popcount(inter) <= _popcount(outer) * 2:
        return _in_expr(c.e, inter, c.dom)
    return z3.Not(_in_expr(c.e, outer, c.dom))


def _popcount(x):
    return bin(x).count("1")


def _in_expr(e, mask, dom):
    runs = []
    v = 0
    m = mask
    cur = None
    last_dom_gap = False
    # runs over the domain: values outside dom may be absorbed
    top = dom.bit_length()
    while v < top:
        if m >> v & 1:
            if cur is None:
                cur = [v, v]
            else:
                cur[1] = v
        elif dom >> v & 1:
            if cur is not None:
                runs.append(cur)
                cur = None
        v += 1
    if cur is not None:
        runs.append(cur)
    parts = []
    for a, b in runs:
        if a == b:
            parts.append(e == a)
        else:
            parts.append(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def ch_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if type(a) is Ch and type(b) is Ch and a.e.eq(b.e):
        return a
    return Ch(z3.If(c, ch_expr(a), ch_expr(b)), dom_of(a) | dom_of(b))


def chars_of(s):
    return tuple(ord(c) for c in s)


def lt_expr(i, n):
    """Bool expr / constant for i < n (ints or SymInts)."""
    return as_bool_expr(i_lt(i, n))


def is_str(x):
    return type(x) is str or isinstance(type(x), type) and \
        issubclass(type(x), SymStr)


def lift(x):
    """str or SymStr -> SymStr (possibly constant)."""
    if isinstance(x, str) and not issubclass(type(x), SymStr):
        return SymStr(chars_of(x), len(x))
    return x


def mkstr(chars, length):
    """Normalising constructor: returns a native str when constant."""
    if type(length) is SymInt:
        if length.hi < len(chars):
            chars = chars[:max(length.hi, 0)]
        if length.hi <= 0:
            return ""
        return SymStr(tuple(chars), length)
    chars = tuple(chars[:length])
    for c in chars:
        if type(c) is not int:
            return SymStr(chars, length)
    return "".join(map(chr, chars))


class SymStr(Sym):
    __slots__ = ("_chars", "_n", "_thunk", "_memo", "_lines", "_empty",
                 "_view", "_trim", "_filt", "_origin", "_rope",
                 "__weakref__")

    def __init__(self, chars, n, thunk=None):
        self._chars = chars
        self._n = n
        self._thunk = thunk
        self._memo = None
        self._lines = None
        self._empty = None
        self._view = None       # (base, a, b): this is base[a:b], a <= b
        self._filt = None       # (chars, keeps): the kept characters
        self._trim = None       # (mask, left, right) already stripped
        self._origin = None     # the integer this is the decimal text of
        self._rope = None       # pieces of a concatenation not yet built

    def empty(self):
        """The string has no characters, as a boolean expression."""
        if self._empty is not None:
            return self._empty
        return as_bool_expr(i_eq(self.n, 0))

    @property
    def __class__(self):
        return str

    def _force(self):
        if self._thunk is not None:
            t, self._thunk = self._thunk, None
            r = lift(t())
            self._chars = r.chars
            if self._n is None:
                self._n = r.n
            self._lines = r._lines

    def parts(self):
        """The pieces of a long concatenation that was not built, or the
        string itself."""
        if self._thunk is not None and self._rope is None:
            r = lift(self._thunk())
            if r._rope is not None and r._thunk is not None:
                self._rope = r._rope
            self._thunk = lambda: r
        if self._rope is not None and self._thunk is not None:
            return self._rope
        return [self]

    @property
    def chars(self):
        if self._thunk is not None:
            self._force()
        return self._chars

    @property
    def n(self):
        if self._n is None:
            self._force()
        return self._n

    def span(self):
        """(characters, a, b): this string is characters[a:b]."""
        if self._view is not None:
            base, a, b, _ = self._view
            return base.chars, a, b
        return self.chars, 0, self.n

    def memo(self, key, fn):
        if self._memo is None:
            self._memo = {}
        r = self._memo.get(key)
        if r is None:
            r = fn()
            self._memo[key] = r
        return r

    # -- concretisation
    def concrete(self, limit=64):
        """Native text of this string: forks over its values; beyond a small
        number of symbolic characters only one value is followed and the
        rest is reported as not covered."""
        n = self.n
        if type(n) is SymInt:
            n = n.concrete(limit)
        out = []
        if sum(type(c) is Ch for c in self.chars[:n]) > 2:
            limit = 1
        for c in self.chars[:n]:
            if type(c) is Ch:
                c = eng().choose(z3.ZeroExt(1, c.e), "char", limit)
            out.append(chr(c))
        return "".join(out)

    def __str__(self):
        return self.concrete()

    def __hash__(self):
        core.HASHED[0] = True
        return object.__hash__(self)

    def __repr__(self):
        return "<SymStr>"

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __reduce__(self):
        raise Unsupported("pickle of symbolic string")

    # -- size
    def __len__(self):
        n = self.n
        return n.concrete() if type(n) is SymInt else n

    def __bool__(self):
        return not bool(mkbool(self.empty()))

    def _fixed(self):
        """Fork on the length; returns list of characters."""
        n = self.n
        if type(n) is SymInt:
            n = n.concrete(400)
        return list(self.chars[:n])

    def __iter__(self):
        i = 0
        chars = self.chars
        n = self.n
        while i < len(chars):
            if not bool(i_lt(i, n)):
                return
            yield mkstr((chars[i],), 1)
            i += 1

    # -- comparison
    def __eq__(self, o):
        if not is_str(o):
            return NotImplemented
        return s_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(b_not(r))

    def __lt__(self, o):
        if not is_str(o):
            return NotImplemented
        return s_lt(self, lift(o))

    def __gt__(self, o):
        if not is_str(o):
            return NotImplemented
        return s_lt(lift(o), self)

    def __le__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(b_not(s_lt(lift(o), self)))

    def __ge__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(b_not(s_lt(self, lift(o))))

    # -- structure
    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return s_concat(self, o)

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return s_concat(o, self)

    def __mul__(self, k):
        return s_repeat(self, k)

    __rmul__ = __mul__

    def _sx_repeat(self, k):
        return s_repeat(self, k)

    def __getitem__(self, key):
        if isinstance(key, slice):
            return s_slice(self, key)
        k = toint(key)
        if k is None:
            raise TypeError("string indices must be integers")
        n = self.n
        if rng(k)[0] < 0:
            if bool(i_lt(k, 0)):
                k = i_add(k, n)
        if not (bool(i_le(0, k)) and bool(i_lt(k, n))):
            raise IndexError("string index out of range")
        return s_sub(self, k, i_add(k, 1))

    def __contains__(self, sub):
        return bool(s_contains(self, sub))

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    def __rmod__(self, o):
        from . import fmt
        if isinstance(o, str):
            return fmt.percent(o, self)
        return NotImplemented

    # -- methods
    def _ws_edge(self, mask, left, right):
        """Where the string without mask characters starts and ends, within
        the characters of span()."""
        chars, a, b = self.span()
        idx = range(max(0, rng(a)[0]), min(len(chars), rng(b)[1]))
        keep = {i: b_and(b_not(ch_in(chars[i], mask)), inside(i, a, b))
                for i in idx}
        start = a
        if left:
            # index of first kept char (b if none)
            start = b
            for i in reversed(idx):
                start = ite_int(keep[i], i, start)
        end = b
        if right:
            end = b if left else a
            for i in idx:
                end = ite_int(keep[i], i + 1, end)
        return start, end

    def _strip(self, chars, left, right):
        if chars is None:
            mask = WS_MASK
        else:
            cs = lift(chars)
            if type(cs.n) is not int or any(type(c) is Ch for c in cs.chars):
                chars = concrete_str(chars)
                cs = lift(chars)
            mask = 0
            for c in cs.chars:
                mask |= 1 << c

        if self._trim is not None and self._trim[0] == mask and \
                (self._trim[1] or not left) and \
                (self._trim[2] or not right):
            return self

        def go():
            chars, a, b = self.span()
            parts = []
            sym = False
            for i in range(max(0, rng(a)[0]), min(len(chars), rng(b)[1])):
                c = chars[i]
                sym = sym or type(c) is Ch
                ws = ch_in(c, mask)
                if ws is True:
                    continue
                parts.append(b_or(b_not(inside(i, a, b)), ws))
            blank = simpb(b_and(*parts)) if parts else True
            if blank is True:
                return ""
            if not sym and type(a) is int and type(b) is int:
                s, e = self._ws_edge(mask, left, right)
                return s_sub(self._base(), s, e)
            s, e = self._ws_edge(mask, left, right)
            r = s_sub(self._base(), s, e)
            if type(r) is SymStr and (type(s) is SymInt or
                                      type(e) is SymInt):
                r._empty = blank
                r._trim = (mask, left, right)
                if r._view is not None and self._view is None:
                    r._view = r._view[:3] + (True,)
            return r
        return self.memo(("strip", mask, left, right), go)

    def _base(self):
        return self if self._view is None else self._view[0]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _map(self, key, f):
        def go():
            if self._filt is not None:
                chars, keeps = self._filt
                return s_filter(tuple(f(c) for c in chars), keeps)
            return mkstr(tuple(f(c) for c in self.chars), self.n)
        return self.memo(key, go)

    def upper(self):
        return self._map("upper", ch_upper)

    def lower(self):
        return self._map("lower", ch_lower)

    casefold = lower

    def swapcase(self):
        return self._map("swapcase", lambda c: ch_ite(
            ch_in(c, LOWER_MASK), ch_upper(c), ch_lower(c)))

    def _all(self, mask, nonempty=True):
        if self._filt is not None:
            cs = [b_or(b_not(k), ch_in(c, mask)) for c, k in
                  zip(*self._filt)]
            if nonempty:
                cs.append(b_not(self.empty()))
            return mkbool(simpb(b_and(*cs)))
        n = self.n
        out = [b_or(b_not(lt_expr(i, n)), ch_in(c, mask))
               for i, c in enumerate(self.chars)]
        if nonempty:
            out.append(lt_expr(0, n))
        return mkbool(b_and(*out))

    def isspace(self):
        return self._all(WS_MASK)

    def isdigit(self):
        self._ascii()
        return self._all(DIGIT_MASK)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        self._ascii()
        return self._all(LOWER_MASK | UPPER_MASK)

    def isalnum(self):
        self._ascii()
        return self._all(LOWER_MASK | UPPER_MASK | DIGIT_MASK)

    def isascii(self):
        return self._all((1 << 128) - 1, False)

    def isprintable(self):
        self._ascii()
        return self._all(sum(1 << c for c in range(32, 127)), False)

    def _any(self, mask):
        if self._filt is not None:
            return simpb(b_or(*[b_and(k, ch_in(c, mask))
                                for c, k in zip(*self._filt)]))
        n = self.n
        return b_or(*[b_and(lt_expr(i, n), ch_in(c, mask))
                      for i, c in enumerate(self.chars)])

    def isupper(self):
        self._ascii()
        return mkbool(b_and(self._any(UPPER_MASK),
                            b_not(self._any(LOWER_MASK))))

    def islower(self):
        self._ascii()
        return mkbool(b_and(self._any(LOWER_MASK),
                            b_not(self._any(UPPER_MASK))))

    def _ascii(self):
        for c in self.chars:
            if dom_of(c) >> 128:
                raise Unsupported("non-ASCII symbolic text")

    def _pair(self, sub):
        return lift(self), lift(sub)

    def _bounds(self, start, end):
        """Normalise optional start/end like str methods do."""
        n = self.n
        return _norm_bound(start, n, 0), _norm_bound(end, n, n)

    def _at(self, sub, i):
        """Does sub occur at position i (int)?  sub has constant length."""
        chars, n = self.chars, self.n
        m = sub.n
        if i + m > len(chars):
            return False
        parts = [as_bool_expr(i_le(i + m, n))]
        for j in range(m):
            parts.append(ch_eq(chars[i + j], sub.chars[j]))
            if parts[-1] is False:
                return False
        return b_and(*parts)

    def _sublift(self, sub):
        if not is_str(sub):
            raise TypeError("must be str, not %s" % type(sub).__name__)
        sub = lift(sub)
        if type(sub.n) is SymInt:
            n = sub.n.concrete(200)
            sub = SymStr(sub.chars[:n], n)
        return sub

    def _find(self, sub, start=None, end=None, right=False):
        sub = self._sublift(sub)
        simple = start is None and end is None
        if simple and sub.n == 1 and self._view is not None:
            found, p = self._locate(sub.chars[0], right)
            if found is False:
                return -1
            return ite_int(found, i_sub(p, self._view[1]), -1)
        s, e = self._bounds(start, end)
        r = -1
        m = len(self.chars) - sub.n
        order = range(m + 1) if right else reversed(range(m + 1))
        for i in order:
            c = self._at(sub, i)
            if c is False:
                continue
            if not simple:
                c = b_and(c, i_le(s, i), i_le(i + sub.n, e))
            r = ite_int(mkbool(c) if not isinstance(c, bool) else c, i, r)
        return r

    def _locate(self, ch, right=False):
        """(is character ch there, its first or last index in span())."""
        def go():
            chars, a, b = self.span()
            idx = range(max(0, rng(a)[0]), min(len(chars), rng(b)[1]))
            trim = self._trim[0] if self._trim is not None else 0
            # a character that is never stripped is always inside
            sure = self._view is not None and \
                type(self._view[0].n) is int and self._trim is not None \
                and self._view[3] and dom_of(ch) & trim == 0
            hit = {}
            for i in idx:
                c = ch_eq(chars[i], ch)
                if not sure:
                    c = b_and(c, inside(i, a, b))
                if c is not False:
                    hit[i] = c
            found = simpb(b_or(*hit.values())) if hit else False
            p = b
            for i in (sorted(hit) if right else sorted(hit, reverse=True)):
                p = ite_int(hit[i], i, p)
            return found, p, ch
        return self.memo(("locate", ch if type(ch) is int
                          else ("e", ch.e.get_id()), right), go)[:2]

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end)
        if bool(i_lt(r, 0)):
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if bool(i_lt(r, 0)):
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sublift(sub)
        s, e = self._bounds(start, end)
        if sub.n == 0:
            return i_add(self.n, 1)
        if sub.n != 1:
            raise Unsupported("count of multi-character substring")
        r = 0
        if start is None and end is None and self._filt is not None:
            for c, k in zip(*self._filt):
                r = i_add(r, ite_int(b_and(k, ch_eq(c, sub.chars[0])), 1, 0))
            return r
        if start is None and end is None and self._view is not None:
            chars, a, b = self.span()
            for i in range(max(0, rng(a)[0]), min(len(chars), rng(b)[1])):
                c = b_and(ch_eq(chars[i], sub.chars[0]), inside(i, a, b))
                r = i_add(r, ite_int(c, 1, 0))
            return r
        for i in range(len(self.chars)):
            c = b_and(self._at(sub, i), i_le(s, i), i_lt(i, e))
            r = i_add(r, ite_int(mkbool(c) if not isinstance(c, bool) else c,
                                 1, 0))
        return r

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return mkbool(b_or(*[self.startswith(p, start, end)
                                 for p in prefix]))
        if not is_str(prefix):
            raise TypeError("startswith first arg must be str or a tuple of "
                            "str, not %s" % type(prefix).__name__)
        if start is not None or end is not None:
            return s_slice(self, slice(start, end)) and lift(
                s_slice(self, slice(start, end))).startswith(prefix)
        p = lift(prefix)
        return mkbool(s_prefix(self, p))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return mkbool(b_or(*[self.endswith(p, start, end)
                                 for p in suffix]))
        if not is_str(suffix):
            raise TypeError("endswith first arg must be str or a tuple of "
                            "str, not %s" % type(suffix).__name__)
        if start is not None or end is not None:
            return lift(s_slice(self, slice(start, end))).endswith(suffix)
        p = lift(suffix)
        tail = lift(s_sub(self, i_max(0, i_sub(self.n, p.n)), self.n))
        return mkbool(b_and(i_le(p.n, self.n), s_eq(tail, p)))

    def removeprefix(self, p):
        return s_slice(self, slice(lift(p).n, None)) \
            if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        if bool(i_lt(0, lift(p).n)) and bool(self.endswith(p)):
            return s_sub(self, 0, i_sub(self.n, lift(p).n))
        return self

    def replace(self, old, new, count=-1):
        old, new = self._sublift(old), lift(new)
        if type(new.n) is int and new.n == 0 and old.n == 1 and count == -1 \
                and self._view is not None:
            return s_delete(self, old.chars[0])
        if self._filt is not None and old.n == 1 and type(new.n) is int \
                and new.n == 0 and count == -1:
            return s_delete(self, old.chars[0])
        # cheap case: old cannot occur
        occ = [self._at(old, i)
               for i in range(len(self.chars) - old.n + 1)] \
            if old.n else [True]
        if all(o is False for o in occ):
            return ident(self)
        if old.n == 1 and new.n == 1 and count == -1:
            o, w = old.chars[0], new.chars[0]
            return mkstr(tuple(ch_ite(_e(ch_eq(c, o)), w, c)
                               for c in self.chars), self.n)
        if old.n == 1 and type(new.n) is int and new.n == 0 and count == -1:
            return s_delete(self, old.chars[0])
        # general: fork on occurrences
        out = ""
        rest = self
        k = 0
        while count < 0 or k < count:
            rest = lift(rest)
            p = rest._find(old)
            if bool(i_lt(p, 0)):
                break
            out = s_concat(s_concat(out, s_sub(rest, 0, p)), new)
            rest = s_sub(rest, i_add(p, old.n), rest.n)
            k += 1
        return s_concat(out, rest)

    def split(self, sep=None, maxsplit=-1):
        if self._lines is not None and type(sep) is str and sep == "\n" \
                and maxsplit == -1:
            return [s_chomp(x) for x in self._lines] + \
                ([] if self._lines and not _ends_nl(self._lines[-1])
                 else [""])
        out = []
        rest = self
        if sep is None:
            while True:
                rest = lift(lift(rest).lstrip())
                if not bool(i_lt(0, rest.n)):
                    return out
                if 0 <= maxsplit <= len(out):
                    out.append(rest.rstrip())
                    return out
                # first whitespace
                p = rest.n
                for i in reversed(range(len(rest.chars))):
                    c = b_and(ch_in(rest.chars[i], WS_MASK),
                              lt_expr(i, rest.n))
                    p = ite_int(mkbool(c) if not isinstance(c, bool) else c,
                                i, p)
                out.append(s_sub(rest, 0, p))
                rest = s_sub(rest, p, rest.n)
        sep = self._sublift(sep)
        if sep.n == 0:
            raise ValueError("empty separator")
        if sep.n == 1 and maxsplit < 0:
            return LazySplit(self, sep.chars[0])
        while maxsplit < 0 or len(out) < maxsplit:
            rest = lift(rest)
            p = rest._find(sep)
            if bool(i_lt(p, 0)):
                break
            out.append(s_sub(rest, 0, p))
            rest = s_sub(rest, i_add(p, sep.n), rest.n)
        out.append(ident(rest))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit on whitespace")
        sep = self._sublift(sep)
        out = []
        rest = self
        while len(out) < maxsplit:
            rest = lift(rest)
            p = rest._find(sep, right=True)
            if bool(i_lt(p, 0)):
                break
            out.insert(0, s_sub(rest, i_add(p, sep.n), rest.n))
            rest = s_sub(rest, 0, p)
        out.insert(0, ident(rest))
        return out

    def partition(self, sep):
        s2 = self._sublift(sep)
        if self._filt is not None and s2.n == 1:
            found, x, y = filt_cut(self._filt, s2.chars[0])
            if bool(mkbool(found)):
                return (x, sep, y)
            return (self, "", "")
        p = self._find(s2)
        if bool(i_lt(p, 0)):
            return (ident(self), "", "")
        return (s_sub(self, 0, p), sep, s_sub(self, i_add(p, s2.n), self.n))

    def rpartition(self, sep):
        s2 = self._sublift(sep)
        p = self._find(s2, right=True)
        if bool(i_lt(p, 0)):
            return ("", "", ident(self))
        return (s_sub(self, 0, p), sep, s_sub(self, i_add(p, s2.n), self.n))

    def splitlines(self, keepends=False):
        if self._lines is not None:
            return [x if keepends else s_chomp(x) for x in self._lines]
        nl = sum(1 << c for c in (10, 11, 12, 13, 28, 29, 30, 0x85))
        hard = False
        for c in self.chars:
            if type(c) is Ch and c.dom & nl & ~(1 << 10):
                hard = True
            if type(c) is int and c != 10 and nl >> c & 1:
                hard = True
        if hard:
            raise Unsupported("splitlines with unusual line ends")
        out = []
        rest = self
        while True:
            rest = lift(rest)
            if not bool(i_lt(0, rest.n)):
                return out
            p = rest._find("\n")
            if bool(i_lt(p, 0)):
                out.append(mkstr(rest.chars, rest.n))
                return out
            out.append(s_sub(rest, 0, i_add(p, 1) if keepends else p))
            rest = s_sub(rest, i_add(p, 1), rest.n)

    def _pad(self, width, fill, left, right):
        width = toint(width)
        if type(width) is SymInt:
            width = width.concrete(400)
        pad = i_max(0, i_sub(width, self.n))
        if left and right:
            raise Unsupported("center")
        p = s_repeat(fill, pad)
        r = s_concat(p, self) if left else s_concat(self, p)
        if type(r) is not str and type(width) is int and \
                type(self.n) is SymInt and self.n.hi <= width:
            # never longer than the field
            return mkstr(r.chars[:width], width)
        return r

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, False, True)

    def rjust(self, width, fill=" "):
        if fill == "0" and self._origin is not None and \
                self._origin.lo >= 0:
            return self.zfill(width)
        return self._pad(width, fill, True, False)

    def center(self, width, fill=" "):
        return self.concrete().center(width, fill)

    def zfill(self, width):
        if self._origin is not None:
            from .fmt import pad_int
            return pad_int(self._origin, 10, "", width, ">", "0", "-")
        first_sign = False
        if len(self.chars):
            c = self.chars[0]
            first_sign = b_or(ch_eq(c, 43), ch_eq(c, 45))
        if first_sign is not False:
            if bool(mkbool(b_and(first_sign, lt_expr(0, self.n)))):
                head = s_sub(self, 0, 1)
                return s_concat(head, lift(s_sub(self, 1, self.n))._pad(
                    i_sub(toint(width), 1), "0", True, False))
        return self._pad(width, "0", True, False)

    def join(self, items):
        return s_join(self, list(items))

    def format(self, *a, **k):
        from . import fmt
        return fmt.str_format(self, a, k)

    def title(self):
        return self.concrete().title()

    def capitalize(self):
        return self.concrete().capitalize()

    def encode(self, *a, **k):
        return self.concrete().encode(*a, **k)

    def translate(self, table):
        return self.concrete().translate(table)

    def expandtabs(self, tabsize=8):
        if all(ch_eq(c, 9) is False for c in self.chars):
            return self
        return self.concrete().expandtabs(tabsize)

    def isidentifier(self):
        return self.concrete().isidentifier()

    def istitle(self):
        return self.concrete().istitle()


def _e(x):
    return x


def _ends_nl(x):
    return bool(lift(x).endswith("\n"))


def s_chomp(x):
    x = lift(x)
    if bool(x.endswith("\n")):
        return s_sub(x, 0, i_sub(x.n, 1))
    return mkstr(x.chars, x.n)


def ch_upper(c):
    if type(c) is int:
        u = chr(c).upper()
        if len(u) != 1:
            raise Unsupported("upper of special character")
        return ord(u)
    if c.dom >> 128:
        raise Unsupported("upper of non-ASCII symbolic text")
    k = ch_in(c, LOWER_MASK)
    if k is False:
        return c
    low = c.dom & LOWER_MASK
    return Ch(z3.If(k, c.e - 32, c.e) if k is not True else c.e - 32,
              (c.dom & ~LOWER_MASK) | (low >> 32))


def ch_lower(c):
    if type(c) is int:
        u = chr(c).lower()
        if len(u) != 1:
            raise Unsupported("lower of special character")
        return ord(u)
    if c.dom >> 128:
        raise Unsupported("lower of non-ASCII symbolic text")
    k = ch_in(c, UPPER_MASK)
    if k is False:
        return c
    up = c.dom & UPPER_MASK
    return Ch(z3.If(k, c.e + 32, c.e) if k is not True else c.e + 32,
              (c.dom & ~UPPER_MASK) | (up << 32))


def concrete_str(s):
    return s.concrete() if isinstance(s, Sym) else s


def _norm_bound(b, n, default):
    """Python slice-bound normalisation: result within 0..n."""
    if b is None:
        return default
    b = toint(b)
    if b is None:
        raise TypeError("slice indices must be integers or None")
    lo, hi = rng(b)
    if lo < 0:
        b = ite_int(i_lt(b, 0), i_max(0, i_add(b, n)), b)
    return i_min(b, n)


def s_slice(s, sl):
    s = lift(s)
    step = sl.step
    if step is not None and toint(step) != 1:
        chars = s._fixed()
        a, b, c = sl.start, sl.stop, sl.step
        a, b, c = [x.__index__() if isinstance(x, Sym) else x
                   for x in (a, b, c)]
        chars = chars[slice(a, b, c)]
        return mkstr(tuple(chars), len(chars))
    a = _norm_bound(sl.start, s.n, 0)
    b = _norm_bound(sl.stop, s.n, s.n)
    return s_sub(s, a, b)


def _key(x):
    return x if type(x) is int else ("e", x.e.get_id())


def inside(i, a, b):
    """a <= i < b as a boolean expression."""
    return b_and(as_bool_expr(i_le(a, i)), lt_expr(i, b))


def ident(s):
    """s itself, as a native string if it is constant."""
    s = lift(s)
    if s._view is not None and type(s._n) is SymInt or \
            s._filt is not None:
        return s
    return s if type(s.n) is SymInt else mkstr(s.chars, s.n)


def s_sub(s, a, b):
    """Characters a..b of s, with 0 <= a,b <= n; empty if b <= a."""
    s = lift(s)
    key = ("sub", _key(a), _key(b))
    keep = (a, b)

    def go():
        if s._view is not None:
            base, a0, b0, _ = s._view
            return s_sub(base, i_add(a0, a), i_add(a0, b)), keep
        ln = i_max(0, i_sub(b, a))
        if type(a) is int:
            chars = s.chars
            out = chars[a:rng(b)[1]] if rng(b)[1] > a else ()
            return mkstr(out, ln), keep
        if rng(ln)[1] <= 0:
            return "", keep
        if type(ln) is SymInt and ln.hi > len(s.chars) - a.lo:
            ln = mkint(ln.e, ln.lo, max(ln.lo, len(s.chars) - a.lo))

        def shifted():
            chars = s.chars
            out = list(chars[a.lo:]) if a.lo > 0 else list(chars)
            off = i_sub(a, a.lo) if a.lo > 0 else a
            maxout = rng(ln)[1]
            hi = rng(off)[1]
            # barrel shift left by off
            k = 0
            if type(off) is int:
                out = out[off:]
            else:
                while (1 << k) <= hi:
                    bit = simp(z3.Extract(k, k, off.e) == 1)
                    sh = 1 << k
                    new = []
                    for i in range(len(out)):
                        if i + sh < len(out):
                            new.append(ch_ite(_tf(bit), out[i + sh], out[i]))
                        else:
                            new.append(out[i])
                    out = new
                    k += 1
            out = tuple(out[:maxout])
            return SymStr(out, min(rng(ln)[1], len(out)))
        r = SymStr(None, ln, shifted)
        r._view = (s, a, i_max(a, b), False)
        return r, keep
    return s.memo(key, go)[0]


def filt_cut(filt, ch):
    """(is ch kept, text before the first kept ch, text after it)."""
    chars, keeps = filt
    seen = False
    before, after = [], []
    for c, k in zip(chars, keeps):
        is_sep = b_and(k, ch_eq(c, ch))
        before.append(b_and(k, b_not(seen), b_not(is_sep)))
        after.append(b_and(k, seen))
        seen = simpb(b_or(seen, is_sep))
    return seen, s_filter(chars, before), s_filter(chars, after)


class LazySplit:
    """Result of split on one character; the pieces that are not looked at
    are not distinguished."""

    def __init__(self, s, ch):
        self.s = s
        self.ch = ch
        self.pieces = []
        self.rest = s
        self.real = None

    @property
    def __class__(self):
        return list

    def _more(self):
        """Produce one more piece; False if that was the last one."""
        if self.rest is None:
            return False
        rest = lift(self.rest)
        if rest._filt is not None:
            found, first, tail = filt_cut(rest._filt, self.ch)
            if bool(mkbool(found)):
                self.pieces.append(first)
                self.rest = tail
            else:
                self.pieces.append(rest)
                self.rest = None
            return True
        found, p = rest._locate(self.ch)
        if found is not False and bool(mkbool(found)):
            base = rest._base()
            _, a, b = rest.span()
            self.pieces.append(s_sub(base, a, p))
            self.rest = s_sub(base, i_add(p, 1), b)
        else:
            self.pieces.append(ident(rest))
            self.rest = None
        return True

    def force(self):
        if self.real is None:
            while self._more():
                pass
            self.real = self.pieces
        return self.real

    def __getitem__(self, k):
        if type(k) is int and self.real is None:
            if k == 0 and not self.pieces:
                # the first piece always exists
                rest = lift(self.s)
                if rest._filt is not None:
                    return filt_cut(rest._filt, self.ch)[1]
                found, p = rest._locate(self.ch)
                if found is not False:
                    _, a, b = rest.span()
                    return s_sub(rest._base(), a, p)
            if k == -1 and lift(self.s)._filt is None:
                rest = lift(self.s)
                found, p = rest._locate(self.ch, True)
                if found is not False:
                    _, a, b = rest.span()
                    return s_sub(rest._base(), ite_int(found, i_add(p, 1),
                                                       a), b)
            if k >= 0:
                while len(self.pieces) <= k and self._more():
                    pass
                return self.pieces[k]
        return self.force()[k]

    def __iter__(self):
        i = 0
        while True:
            if i >= len(self.pieces) and not self._more():
                return
            yield self.pieces[i]
            i += 1

    def sx_len(self):
        if self.real is None:
            return i_add(lift(self.s).count(mkstr((self.ch,), 1)), 1)
        return len(self.real)

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self.force() == o

    def __ne__(self, o):
        return self.force() != o

    def __contains__(self, x):
        return x in self.force()

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __reversed__(self):
        return reversed(self.force())

    def __setitem__(self, k, v):
        self.force()[k] = v

    def __delitem__(self, k):
        del self.force()[k]

    def __repr__(self):
        return repr(self.force())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)


def _tf(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def s_eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if type(b._n) is int and b._n == 0:
        return mkbool(simpb(a.empty()))
    if type(a._n) is int and a._n == 0:
        return mkbool(simpb(b.empty()))
    if b._filt is not None and a._filt is None:
        a, b = b, a
    if a._filt is not None:
        if b._filt is not None and len(a._filt[1]) == len(b._filt[1]) and \
                all(x is y or (not isinstance(x, bool) and
                               not isinstance(y, bool) and x.eq(y))
                    for x, y in zip(a._filt[1], b._filt[1])):
            return mkbool(simpb(b_and(*[
                b_or(b_not(k), ch_eq(p, q)) for k, p, q in
                zip(a._filt[1], a._filt[0], b._filt[0])])))
        if type(b._n) is int:
            return mkbool(filt_eq(a._filt, b))
    same = False
    if a._view is not None and b._view is not None and \
            _same_chars(a._view[0], b._view[0]):
        same = simpb(b_and(as_bool_expr(i_eq(a._view[1], b._view[1])),
                           as_bool_expr(i_eq(a._view[2], b._view[2]))))
        if same is True:
            return True
    le = as_bool_expr(i_eq(a.n, b.n))
    if le is False:
        return False
    parts = [le]
    m = min(rng(a.n)[1], rng(b.n)[1], len(a.chars), len(b.chars))
    lo = max(rng(a.n)[0], rng(b.n)[0])
    for i in range(m):
        c = ch_eq(a.chars[i], b.chars[i])
        if c is True:
            continue
        if i >= lo:
            c = b_or(b_not(lt_expr(i, a.n)), c)
        if c is False:
            return False
        parts.append(c)
    r = simpb(b_and(*parts))
    if same is not False and not isinstance(r, bool):
        r = simpb(b_or(same, r))
    return mkbool(r)


def _same_chars(a, b):
    if a is b:
        return True
    x, y = a.chars, b.chars
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p is not q and ch_eq(p, q) is not True:
            return False
    return True


def simpb(e):
    if e is True or e is False:
        return e
    return _tf(simp(e))


def s_lt(a, b):
    m = max(len(a.chars), len(b.chars))
    r = False
    # build from the last position backwards
    for i in reversed(range(m + 1)):
        ina = lt_expr(i, a.n)
        inb = lt_expr(i, b.n)
        if i >= len(a.chars):
            ina = False
        if i >= len(b.chars):
            inb = False
        if inb is False:
            r = False
            continue
        if ina is False:
            r = b_or(b_and(inb, True), False) if inb is not True else True
            continue
        ca, cb = a.chars[i], b.chars[i]
        if type(ca) is int and type(cb) is int:
            lt, eq = ca < cb, ca == cb
        else:
            ea, eb = ch_expr(ca), ch_expr(cb)
            lt = z3.ULT(ea, eb)
            eq = ch_eq(ca, cb)
        both = b_or(lt, b_and(eq, r))
        # a ended before i: a < b iff b has char i
        r = b_and(inb, b_or(b_not(ina), both))
    return mkbool(simpb(r))


ROPE = 256


def _rope(a, b, total):
    parts = a.parts() + b.parts()

    def build():
        out = ""
        for p in parts:
            out = s_concat(out, p, True)
        return out
    r = SymStr(None, total, build)
    r._rope = parts
    return r


def s_concat(a, b, build=False):
    a, b = lift(a), lift(b)
    if not build and (a._rope is not None and a._thunk is not None or
                      b._rope is not None and b._thunk is not None):
        return _rope(a, b, i_add(a.n, b.n))
    if type(a.n) is int:
        if type(b.n) is int:
            return mkstr(a.chars[:a.n] + b.chars[:b.n], a.n + b.n)
        return mkstr(a.chars[:a.n] + b.chars, i_add(a.n, b.n))
    if type(b.n) is int and b.n == 0:
        return mkstr(a.chars, a.n)
    # symbolic boundary: place b shifted right by a.n
    total = i_add(a.n, b.n)
    m = rng(total)[1]
    if m > ROPE and not build:
        return _rope(a, b, total)
    if m > MAXLEN:
        raise Unsupported("string too long")
    base = a.n.lo
    out = [None] * (m - base)
    src = list(b.chars) + [0] * (m - base - len(b.chars))
    src = src[:m - base]
    off = i_sub(a.n, base)
    k = 0
    if type(off) is int:
        src = ([0] * off + src)[:len(src)]
    while type(off) is SymInt and (1 << k) <= off.hi:
        bit = _tf(simp(z3.Extract(k, k, off.e) == 1))
        sh = 1 << k
        src = [ch_ite(bit, src[i - sh] if i >= sh else 0, src[i])
               for i in range(len(src))]
        k += 1
    chars = list(a.chars[:base])
    for i in range(base, m):
        if i < len(a.chars):
            chars.append(ch_ite(lt_expr(i, a.n), a.chars[i], src[i - base]))
        else:
            chars.append(src[i - base])
    return mkstr(tuple(chars), total)


def s_join(sep, items):
    out = ""
    first = True
    if type(sep) is SymStr and type(sep.n) is int and sep.n == 1 and \
            sep.chars[0] == 10:
        sep = "\n"
    if type(sep) is str and sep == "\n" and len(items) > 1 and all(is_str(x) for x in items) and \
            any(type(x) is not str and type(lift(x).n) is SymInt
                for x in items):
        # lines: kept apart until the text is needed as a whole
        parts, total = [], len(items) - 1
        for k, it in enumerate(items):
            if k:
                parts.append(lift(sep))
            parts += lift(it).parts()
            total = i_add(total, lift(it).n)

        def build():
            o = ""
            for p in parts:
                o = s_concat(o, p, True)
            return o
        r = SymStr(None, total, build)
        r._rope = parts
        return r
    for it in items:
        if not is_str(it):
            raise TypeError("sequence item: expected str instance, %s found"
                            % type(it).__name__)
        if not first:
            out = s_concat(out, sep)
        out = s_concat(out, it)
        first = False
    return out


def s_repeat(s, k):
    k = toint(k)
    if k is None:
        raise TypeError("can't multiply sequence by non-int")
    if type(s) in (list, tuple, bytes):
        return s * (k.concrete() if type(k) is SymInt else k)
    s = lift(s)
    if type(k) is int:
        if type(s.n) is int:
            return mkstr(s.chars[:s.n] * max(k, 0), s.n * max(k, 0))
        out = ""
        for _ in range(k):
            out = s_concat(out, s)
        return out
    k = i_max(0, k)
    if type(k) is int:
        return s_repeat(s, k)
    if type(s.n) is not int or k.hi - k.lo <= 8:
        return s_repeat(s, k.concrete(400))
    if k.hi * s.n > MAXLEN:
        return s_repeat(s, k.concrete(400))
    return mkstr(s.chars[:s.n] * k.hi, k * s.n)


core._REPEAT[0] = s_repeat


def s_prefix(s, p):
    """s starts with p, as a boolean expression."""
    s, p = lift(s), lift(p)
    parts = [as_bool_expr(i_le(p.n, s.n))]
    if parts[0] is False:
        return False
    for i in range(min(len(p.chars), rng(p.n)[1])):
        if i >= len(s.chars):
            parts.append(b_not(lt_expr(i, p.n)))
            continue
        c = ch_eq(s.chars[i], p.chars[i])
        if i >= rng(p.n)[0]:
            c = b_or(b_not(lt_expr(i, p.n)), c)
        parts.append(c)
    return simpb(b_and(*parts))


def s_contains(s, sub):
    if not is_str(sub):
        raise TypeError("'in <string>' requires string as left operand, not "
                        + type(sub).__name__)
    s = lift(s)
    sub = s._sublift(sub)
    if sub.n == 1 and s._filt is not None:
        return mkbool(simpb(b_or(*[b_and(k, ch_eq(c, sub.chars[0]))
                                   for c, k in zip(*s._filt)])))
    if sub.n == 1 and s._view is not None:
        return mkbool(s._locate(sub.chars[0])[0])
    return mkbool(simpb(b_or(*[s._at(sub, i) for i in
                               range(len(s.chars) - sub.n + 1)])))


def s_delete(s, ch):
    """Remove every occurrence of a character (stable compaction)."""
    if s._filt is not None:
        chars, keeps = s._filt
        return s_filter(chars, tuple(b_and(k, b_not(ch_eq(c, ch)))
                                     for c, k in zip(chars, keeps)))
    chars, a, b = s.span()
    idx = range(max(0, rng(a)[0]), min(len(chars), rng(b)[1]))
    part = tuple(chars[i] for i in idx)
    dom = 0
    for c in part:
        dom |= dom_of(c)
    free = False
    if s._trim is not None and s._view is not None and s._view[3] and \
            type(s._view[0].n) is int and dom & s._trim[0] == dom_of(ch):
        free = True         # only ch itself was stripped
    keeps = tuple(b_not(ch_eq(chars[i], ch)) if free else
                  b_and(inside(i, a, b), b_not(ch_eq(chars[i], ch)))
                  for i in idx)
    return s_filter(part, keeps)


def s_filter(chars, keeps):
    """The characters whose condition holds, in order."""
    keeps = tuple(simpb(k) for k in keeps)
    chars, keeps = tuple(c for c, k in zip(chars, keeps) if k is not False), \
        tuple(k for k in keeps if k is not False)
    if all(k is True for k in keeps):
        return mkstr(chars, len(chars))

    def go():
        return compact(chars, keeps)
    r = SymStr(None, None, go)
    r._filt = (chars, keeps)
    r._empty = simpb(b_not(b_or(*keeps)))
    return r


def compact(chars, keeps):
    out_n = 0
    out = []
    for c, keep in zip(chars, keeps):
        # insert c at position out_n when kept
        lo, hi = rng(out_n)
        if keep is True and lo == hi:
            out = out[:lo] + [c]
            out_n = lo + 1
            continue
        while len(out) < hi + 1:
            out.append(c)
        for p in range(lo, hi + 1):
            at = as_bool_expr(i_eq(out_n, p))
            out[p] = ch_ite(simpb(b_and(at, keep)), c, out[p])
        out_n = i_add(out_n, ite_int(keep, 1, 0))
    return mkstr(tuple(out), out_n)


def filt_eq(filt, b):
    """Filtered characters equal the constant-length string b."""
    chars, keeps = filt
    m = b.n
    state = [True] + [False] * m        # matched j characters so far
    over = False                        # more than m characters
    for c, k in zip(chars, keeps):
        over = b_or(over, b_and(k, state[m]))
        new = []
        for j in range(m + 1):
            stay = b_and(b_not(k), state[j])
            step = b_and(k, state[j - 1], ch_eq(c, b.chars[j - 1])) \
                if j else False
            new.append(b_or(stay, step))
        state = new
    return simpb(state[m])


def s_parse_int(s, base=10):
    """int(s, base): sign, digits; forks on validity."""
    s = lift(lift(s).strip())
    if base not in (2, 8, 10):
        return int(s.concrete(), base)
    n = s.n
    digs = sum(1 << c for c in range(48, 48 + base))
    neg = False
    if base == 10 and type(n) is int and s._view is None:
        cs = s.chars[:n]
        while len(cs) > 1 and cs[0] == 48 and type(cs[0]) is int:
            cs = cs[1:]
        if cs and all(type(c) is Ch for c in cs):
            r = eng().dec_text.get(tuple(c.e.get_id() for c in cs))
            if r is not None:
                return r[0]
    if len(s.chars) and ch_in(s.chars[0], (1 << 43) | (1 << 45)) is not False:
        if bool(mkbool(b_and(lt_expr(0, n),
                             ch_in(s.chars[0], (1 << 43) | (1 << 45))))):
            neg = bool(mkbool(_b(ch_eq(s.chars[0], 45))))
            s = lift(s_sub(s, 1, n))
            n = s.n
    if not bool(s._all(digs)):
        for c in s.chars:
            if dom_of(c) >> 95 & 1 or dom_of(c) >> 128:
                # underscores / unicode digits: leave to concrete parsing
                if bool(mkbool(_b(s._any((1 << 95) | (~0 << 128)
                                         & ((1 << 256) - 1))))):
                    return int(s.concrete(), base) * (-1 if neg else 1)
        raise ValueError("invalid literal for int() with base %d" % base)
    if len(s.chars) > 24:
        return int(s.concrete(), base) * (-1 if neg else 1)
    val = 0
    for i, c in enumerate(s.chars):
        if type(c) is int:
            d = c - 48
        else:
            d = mkint(z3.ZeroExt(1, z3.Extract(3, 0, c.e)), 0, base - 1) \
                if c.dom & ~digs == 0 else \
                SymInt(z3.ZeroExt(1, z3.Extract(3, 0, c.e - 48)), 0, 15)
            if type(d) is SymInt and d.hi == 15:
                d = ite_int(ch_in(c, digs), mkint(d.e, 0, 15), 0)
                if type(d) is SymInt:
                    d = SymInt(d.e, 0, base - 1) \
                        if core.bits_for(0, base - 1) == d.e.size() else \
                        mkint(d.e, 0, base - 1)
        nv = val * base + d
        val = ite_int(lt_expr(i, n), nv, val)
    return -val if neg else val


def _b(x):
    return x


def s_ord(s):
    s = lift(s)
    if not bool(i_eq(s.n, 1)):
        raise TypeError("ord() expected a character")
    c = s.chars[0]
    if type(c) is int:
        return c
    lo = (c.dom & -c.dom).bit_length() - 1
    return mkint(z3.ZeroExt(1, c.e), lo, c.dom.bit_length() - 1)


def s_chr(i):
    i = toint(i)
    if type(i) is int:
        return chr(i)
    if i.lo < 0 or i.hi > 255:
        if bool(i_lt(i, 0)) or bool(i_lt(255, i)):
            return chr(i.concrete(64))
    e = z3.Extract(7, 0, z3.SignExt(8, i.e))
    lo, hi = max(i.lo, 0), min(i.hi, 255)
    return mkstr((Ch(e, ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)),), 1)
