"""Runtime helpers called by the transformed code."""
import builtins
import functools
import io
import operator
import os
import sys
import types

from . import core, flt, fmt, strs
from .core import (Sym, SymBool, SymInt, Unsupported, as_bool_expr, b_and,
                   b_not, b_or, eng, i_add, i_eq, i_le, i_lt, i_max, i_min,
                   i_sub, ite_int, mkbool, rng, toint)
from .fmt import has_sym, sx_format, sx_repr, sx_str, user_class
from .strs import SymStr, is_str, lift, mkstr, s_contains

_KEYS = type({}.keys())
_VALUES = type({}.values())
_ITEMS = type({}.items())


# -- equality / membership ---------------------------------------------------

def is_symkey(k):
    t = type(k)
    if t is int or t is str:
        return False
    if isinstance(k, Sym):
        return True
    if type(k) is tuple or (isinstance(k, tuple)):
        return any(is_symkey(x) for x in k)
    return False


def eq(a, b):
    """a == b as bool or SymBool, without forking for plain data."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and \
            (is_symkey(a) or is_symkey(b)):
        if len(a) != len(b):
            return False
        return mkbool(b_and(*[eq(x, y) for x, y in zip(a, b)]))
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def sx_in(x, c):
    """x in c"""
    if isinstance(c, Sym):
        if is_str(c):
            return s_contains(c, x)
        raise TypeError("argument of type 'int' is not iterable")
    t = type(c)
    if t is SymRange:
        return c.contains(x)
    if isinstance(c, str):
        if isinstance(x, Sym):
            return s_contains(c, x)
        return x in c
    if isinstance(c, dict) or t is _KEYS:
        d = c if isinstance(c, dict) else c.mapping
        if not is_symkey(x):
            if x in d:
                return True
            if not core.HASHED[0]:
                return False
        return _any_eq(x, d)
    if t in (list, tuple, set, frozenset) or isinstance(
            c, (list, tuple, set, frozenset)):
        if is_symkey(x) or (has_sym(c)):
            return _any_eq(x, c)
        return x in c
    if t in (_VALUES, _ITEMS):
        return _any_eq(x, list(c))
    if t is range and isinstance(x, Sym):
        return SymRange(c.start, c.stop, c.step).contains(x)
    if user_class(c):
        f = getattr(type(c), "__contains__", None)
        if f is not None and hasattr(f, "__code__"):
            return f(c, x)
        if hasattr(type(c), "__iter__"):
            for y in c:
                if y is x or bool(eq(y, x)):
                    return True
            return False
    return x in c


def _any_eq(x, items):
    if type(x) is SymInt:
        vals = [y for y in items if type(y) is int]
        if len(vals) > 16 and len(vals) == len(items):
            vals.sort()
            if vals[-1] - vals[0] == len(set(vals)) - 1:
                return mkbool(b_and(i_le(vals[0], x), i_le(x, vals[-1])))
    out = []
    for y in items:
        if not is_symkey(x) and not is_symkey(y):
            if x is y or x == y:
                return True
            continue
        e = eq(x, y)
        if e is True:
            return True
        out.append(e)
    return mkbool(strs.simpb(b_or(*out)))


# -- subscripts ----------------------------------------------------------------

_MISSING = object()


def dict_find(d, key):
    """Return the stored key equal to key on this path, or _MISSING."""
    if not is_symkey(key):
        if key in d:
            return key
        if not core.HASHED[0]:
            return _MISSING
        for k in list(d):
            if is_symkey(k) and bool(eq(k, key)):
                return k
        return _MISSING
    for k in d:
        if k is key:
            return k
    if type(key) is SymInt:
        ints = [k for k in d if type(k) is int]
        if not bool(mkbool(b_or(*[as_bool_expr(_any_eq(key, ints))]))):
            pass
        else:
            if len(ints) <= 4:
                for k in ints:
                    if bool(eq(key, k)):
                        return k
            return key.concrete(None)
        for k in list(d):
            if is_symkey(k) and bool(eq(k, key)):
                return k
        return _MISSING
    cand = []
    for k in list(d):
        e = eq(k, key)
        if e is not False:
            cand.append((k, e))
    if not cand:
        return _MISSING
    if len(cand) > 2:
        if not bool(mkbool(strs.simpb(b_or(*[e for _, e in cand])))):
            return _MISSING
    for k, e in cand:
        if bool(e):
            return k
    return _MISSING


def is_plain_dict(x):
    return isinstance(x, dict)


def sx_getitem(obj, key):
    if isinstance(obj, Sym):
        if is_str(obj):
            return obj[key]
        raise TypeError("'int' object is not subscriptable")
    if isinstance(obj, dict):
        if type(obj).__getitem__ is not dict.__getitem__ and \
                hasattr(type(obj).__getitem__, "__code__"):
            return obj[key]
        k = dict_find(obj, key)
        if k is _MISSING:
            miss = getattr(type(obj), "__missing__", None)
            if miss is not None:
                return miss(obj, key)
            raise KeyError(key)
        return dict.__getitem__(obj, k)
    if isinstance(obj, str):
        if isinstance(key, slice):
            if has_sym((key.start, key.stop, key.step)):
                return strs.s_slice(obj, key)
        elif isinstance(key, Sym):
            return lift(obj)[key]
        return obj[key]
    if isinstance(obj, (list, tuple)) and not user_class(obj) or \
            (isinstance(obj, tuple) and hasattr(obj, "_fields")):
        if isinstance(key, slice):
            if has_sym((key.start, key.stop, key.step)):
                key = slice(*[x.__index__() if isinstance(x, Sym) else x
                              for x in (key.start, key.stop, key.step)])
            return obj[key]
        if isinstance(key, Sym):
            return _list_index(obj, key)
        return obj[key]
    if type(obj) is range and isinstance(key, Sym):
        return _list_index(obj, key)
    return obj[key]


def _list_index(obj, key):
    k = toint(key)
    n = len(obj)
    if not bool(mkbool(b_and(i_le(-n, k), i_lt(k, n)))):
        raise IndexError("list index out of range")
    if n and n <= 256 and all(type(x) in (int, SymInt) for x in obj):
        r = obj[0]
        k2 = ite_int(i_lt(k, 0), i_add(k, n), k)
        for i in range(1, n):
            r = ite_int(i_eq(k2, i), obj[i], r)
        return r
    return obj[k if type(k) is int else k.concrete(None)]


def sx_setitem(obj, key, value):
    if isinstance(obj, dict):
        if type(obj).__setitem__ is not dict.__setitem__ and \
                hasattr(type(obj).__setitem__, "__code__"):
            obj[key] = value
            return
        k = dict_find(obj, key)
        obj[key if k is _MISSING else k] = value
        return
    if isinstance(obj, list):
        if isinstance(key, Sym):
            k = toint(key)
            n = len(obj)
            if not bool(mkbool(b_and(i_le(-n, k), i_lt(k, n)))):
                raise IndexError("list assignment index out of range")
            key = k if type(k) is int else k.concrete(None)
        elif isinstance(key, slice):
            key = slice(*[x.__index__() if isinstance(x, Sym) else x
                          for x in (key.start, key.stop, key.step)])
    obj[key] = value


def sx_delitem(obj, key):
    if isinstance(obj, dict):
        k = dict_find(obj, key)
        if k is _MISSING:
            raise KeyError(key)
        del obj[k]
        return
    if isinstance(obj, list) and isinstance(key, Sym):
        k = toint(key)
        n = len(obj)
        if not bool(mkbool(b_and(i_le(-n, k), i_lt(k, n)))):
            raise IndexError("list assignment index out of range")
        key = k if type(k) is int else k.concrete(None)
    del obj[key]


def sx_mod(a, b):
    if isinstance(a, str):
        return fmt.percent(a, b)
    return a % b


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
         "FloorDiv": operator.ifloordiv, "Div": operator.itruediv,
         "Pow": operator.ipow, "LShift": operator.ilshift,
         "RShift": operator.irshift, "BitAnd": operator.iand,
         "BitOr": operator.ior, "BitXor": operator.ixor,
         "MatMult": operator.imatmul}


def sx_iop(op, a, b):
    if op == "Mod":
        return sx_mod(a, b)
    return _IOPS[op](a, b)


def sx_is(a, b, neg):
    if isinstance(a, SymBool) and type(b) is bool:
        a = bool(a)
    elif isinstance(b, SymBool) and type(a) is bool:
        b = bool(b)
    return (a is not b) if neg else (a is b)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(v)
            p = sx_format(v, spec)
        out.append(p)
    if all(type(p) is str for p in out):
        return "".join(out)
    return fmt.lazy(lambda: fmt.concat_all(out))


def sx_set(items):
    return _mkset(set, items)


def _mkset(t, items):
    items = list(items)
    if not any(is_symkey(x) for x in items):
        return t(items)
    out = []
    for x in items:
        if not bool(_any_eq(x, out)):
            out.append(x)
    return t(out)


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        sx_setitem(d, k, v)
    return d


# -- range ---------------------------------------------------------------------

class SymRange:
    """range() with symbolic bounds."""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    def _pos(self):
        if type(self.step) is int:
            return self.step > 0
        return bool(i_lt(0, self.step))

    def __iter__(self):
        pos = self._pos()
        limit = eng().loop_limit
        i = self.start
        n = 0
        while True:
            go = i_lt(i, self.stop) if pos else i_lt(self.stop, i)
            if not bool(go):
                return
            n += 1
            if n > limit:
                raise Unsupported("loop bound exceeded")
            yield i
            i = i + self.step

    def length(self):
        pos = self._pos()
        if pos:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // (-self.step)
        return i_max(0, toint(n))

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.concrete(None)

    def contains(self, x):
        x = toint(x)
        if x is None:
            return False
        pos = self._pos()
        if pos:
            c = b_and(i_le(self.start, x), i_lt(x, self.stop))
        else:
            c = b_and(i_lt(self.stop, x), i_le(x, self.start))
        if type(self.step) is int and abs(self.step) == 1:
            return mkbool(c)
        return mkbool(b_and(c, (x - self.start) % self.step == 0))

    def __contains__(self, x):
        return bool(self.contains(x))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return list(self)[k]
        k = toint(k)
        n = self.length()
        if bool(i_lt(k, 0)):
            k = k + n
        if not bool(mkbool(b_and(i_le(0, k), i_lt(k, n)))):
            raise IndexError("range object index out of range")
        return self.start + k * self.step

    def __reversed__(self):
        n = self.length()
        for i in SymRange(0, n):
            yield self.start + (n - 1 - i) * self.step

    def __bool__(self):
        return bool(i_lt(0, self.length()))


# -- builtins --------------------------------------------------------------------

def b_int(x=0, base=None):
    if base is not None:
        if isinstance(x, Sym) and is_str(x):
            return strs.s_parse_int(x, base)
        return int(x, base)
    t = toint(x)
    if t is not None:
        return t
    if type(x) is flt.SymFloat:
        return x.trunc()
    if is_str(x):
        if isinstance(x, Sym):
            return strs.s_parse_int(x)
        return int(x)
    if user_class(x):
        for n in ("__int__", "__index__", "__trunc__"):
            f = getattr(type(x), n, None)
            if f is not None and hasattr(f, "__code__"):
                return f(x)
    return int(x)


def b_len(x):
    if isinstance(x, Sym):
        if is_str(x):
            return x.n
        raise TypeError("object of type 'int' has no len()")
    if type(x) is SymRange:
        return x.length()
    if type(x) is strs.LazySplit:
        return x.sx_len()
    if user_class(x):
        f = getattr(type(x), "__len__", None)
        if f is not None and hasattr(f, "__code__"):
            n = f(x)
            if type(n) is SymInt and bool(i_lt(n, 0)):
                raise ValueError("__len__() should return >= 0")
            return n
    return len(x)


def b_range(*a):
    b = []
    for x in a:
        t = toint(x)
        if t is None and user_class(x) and hasattr(type(x), "__index__"):
            t = type(x).__index__(x)
        if t is None:
            return range(*a)
        b.append(t)
    if not has_sym(tuple(b)):
        return range(*b)
    if len(b) == 1:
        return SymRange(0, b[0])
    if len(b) == 3:
        if bool(i_eq(b[2], 0)):
            raise ValueError("range() arg 3 must not be zero")
    return SymRange(*b)


def _fold(f, native, a, k):
    if k or len(a) < 1:
        return native(*a, **k)
    items = list(a[0]) if len(a) == 1 else list(a)
    if not items:
        return native(items)
    if any(type(x) is SymInt for x in items) and \
            all(toint(x) is not None for x in items):
        r = toint(items[0])
        for x in items[1:]:
            r = f(r, toint(x))
        return r
    return native(items)


def b_max(*a, **k):
    return _fold(i_max, max, a, k)


def b_min(*a, **k):
    return _fold(i_min, min, a, k)


def b_str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return str(*a, **k)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymStr):
        return mkbool(b_not(x.empty()))
    return bool(x)


def _base_text(base, prefix):
    def f(x):
        t = toint(x)
        if t is None:
            if user_class(x) and hasattr(type(x), "__index__"):
                t = type(x).__index__(x)
            else:
                raise TypeError("'%s' object cannot be interpreted as an "
                                "integer" % type(x).__name__)
        return fmt.int_text(t, base, prefix)
    return f


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymInt:
            return int
        if type(x) is SymBool:
            return bool
        if isinstance(x, SymStr):
            return str
        if type(x) is SymRange:
            return range
    return type(*a)


def b_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        file = sys.stdout
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(sep)
        parts.append(sx_str(a))
    parts.append(end)
    w = getattr(file, "sx_write", None)
    for p in parts:
        if w is not None:
            w(p)
        else:
            file.write(p if type(p) is str else p.concrete())


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_list(*a):
    return list(*a)


def b_ord(c):
    return strs.s_ord(c) if isinstance(c, Sym) else ord(c)


def b_chr(i):
    return strs.s_chr(i) if isinstance(i, Sym) else chr(i)


def b_hash(x):
    if isinstance(x, Sym):
        raise Unsupported("hash of symbolic value")
    return hash(x)


def b_abs(x):
    return abs(x)


def b_divmod(a, b):
    return divmod(a, b)


def b_pow(a, b, m=None):
    return a ** b if m is None else (a ** b) % m


def b_map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


def b_filter(f, it):
    if f is None:
        return filter(None, it)
    return (x for x in it if sx_call(f, x))


def b_sorted(it, key=None, reverse=False):
    if key is not None:
        k = key
        key = lambda x: sx_call(k, x)       # noqa: E731
    return sorted(it, key=key, reverse=reverse)


def b_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        try:
            pairs = [(x, y) for x, y in a[0]]
        except Exception:
            return dict(*a, **k)
        d = sx_dict(pairs)
        d.update(k)
        return d
    return dict(*a, **k)


def b_set(*a):
    return _mkset(set, a[0]) if a else set()


def b_frozenset(*a):
    return _mkset(frozenset, a[0]) if a else frozenset()


def b_float(x=0.0):
    if type(x) is SymInt:
        return flt.SymFloat(x, 1)
    if type(x) is flt.SymFloat:
        return x
    if isinstance(x, SymStr):
        return float(x.concrete())
    return float(x)


def b_isinstance(x, t):
    return isinstance(x, t)


def b_reversed(x):
    if isinstance(x, SymStr):
        return iter(x._fixed()[::-1] and
                    [mkstr((c,), 1) for c in reversed(x._fixed())])
    return reversed(x)


def b_input(*a):
    raise Unsupported("input()")


def r_reduce(f, *a):
    return functools.reduce(lambda p, q: sx_call(f, p, q), *a)


def _truth(v):
    if type(v) is SymBool:
        return as_bool_expr(v)
    if type(v) is SymInt:
        return as_bool_expr(v != 0)
    if isinstance(v, SymStr):
        return b_not(as_bool_expr(v.empty()))
    return bool(v)


def _anyall(items, stop):
    """any (stop=True) or all (stop=False) without a fork per element. Only
    for items whose evaluation has no side effects."""
    acc = False                 # some element so far was `stop`
    it = iter(items)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception:
            # reached only if nothing stopped before
            if acc is not False and bool(mkbool(acc)):
                return stop
            raise
        t = _truth(v)
        acc = b_or(acc, t if stop else b_not(t))
        if acc is True:
            return stop
    if acc is False:
        return not stop
    return mkbool(acc if stop else b_not(acc))


def sx_fold(f, items):
    """f(generator expression), f being any or all unless rebound."""
    if f is any or f is all:
        return _anyall(items, f is any)
    return sx_call(f, items)


def b_any(items):
    return _anyall(items, True) if type(items) in (list, tuple) else any(items)


def b_all(items):
    return _anyall(items, False) if type(items) in (list, tuple) \
        else all(items)


TABLE = {
    any: b_any, all: b_all,
    int: b_int, len: b_len, range: b_range, max: b_max, min: b_min,
    str: b_str, repr: sx_repr, bool: b_bool, bin: _base_text(2, "0b"),
    oct: _base_text(8, "0o"), hex: _base_text(16, "0x"),
    format: sx_format, type: b_type, print: b_print, sum: b_sum,
    ord: b_ord, chr: b_chr, hash: b_hash, pow: b_pow, map: b_map,
    filter: b_filter, sorted: b_sorted, dict: b_dict, set: b_set,
    frozenset: b_frozenset, float: b_float, reversed: b_reversed,
    input: b_input, functools.reduce: r_reduce,
    operator.mod: sx_mod, operator.getitem: sx_getitem,
    operator.contains: lambda c, x: bool(sx_in(x, c)),
}

_BM = types.BuiltinFunctionType
_MD = type(str.strip)
_NOSLOT = object()


def sx_call(f, *args, **kw):
    t = type(f)
    if t is _BM:
        self = getattr(f, "__self__", None)
        if self is not None and not isinstance(self, types.ModuleType):
            return _bound(f, self, f.__name__, args, kw)
    elif t is _MD and args:
        # unbound builtin method, e.g. str.strip(x)
        self = args[0]
        if isinstance(self, Sym):
            return getattr(self, f.__name__)(*args[1:], **kw)
        return _bound(getattr(self, f.__name__, f), self, f.__name__,
                      args[1:], kw) \
            if type(self) in (str, dict, list, set) else f(*args, **kw)
    try:
        g = TABLE.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*args, **kw)
    return f(*args, **kw)


def sx_joinsplit(sep, text, *args):
    """sep.join(text.split(*args))"""
    if type(sep) is str and isinstance(text, strs.SymStr):
        if args and type(args[0]) is str and args[0]:
            return text.replace(args[0], sep)
        if not args and sep == "":
            dom = 0
            for c in text.chars:
                dom |= strs.dom_of(c)
            for w in sorted(strs.WS):
                if dom >> w & 1 and isinstance(text, strs.SymStr):
                    text = text.replace(chr(w), "")
            return text
    return sx_call(sep.join, sx_call(text.split, *args))


def _bound(f, self, name, args, kw):
    if isinstance(self, str):
        if name == "join":
            items = list(args[0])
            if any(isinstance(x, Sym) for x in items):
                return strs.s_join(self, items)
            return self.join(items)
        if name == "format":
            return fmt.str_format(self, args, kw)
        if name == "__mod__":
            return sx_mod(self, *args)
        if has_sym(args) or has_sym(kw):
            return getattr(lift(self), name)(*args, **kw)
        return f(*args, **kw)
    if isinstance(self, dict):
        if name == "get":
            k = dict_find(self, args[0])
            if k is _MISSING:
                return args[1] if len(args) > 1 else kw.get("default")
            return dict.__getitem__(self, k)
        if name == "setdefault":
            k = dict_find(self, args[0])
            if k is _MISSING:
                self[args[0]] = args[1] if len(args) > 1 else None
                return self[args[0]]
            return dict.__getitem__(self, k)
        if name == "pop":
            k = dict_find(self, args[0])
            if k is _MISSING:
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            return self.pop(k)
        if name == "__getitem__":
            return sx_getitem(self, *args)
        if name == "__setitem__":
            return sx_setitem(self, *args)
        if name == "__contains__":
            return bool(sx_in(args[0], self))
        if name == "__delitem__":
            return sx_delitem(self, *args)
        if name == "update":
            for a in args:
                for k, v in (a.items() if isinstance(a, dict) else a):
                    sx_setitem(self, k, v)
            for k, v in kw.items():
                sx_setitem(self, k, v)
            return None
        if name == "fromkeys":
            return sx_dict([(k, args[1] if len(args) > 1 else None)
                            for k in args[0]])
        return f(*args, **kw)
    if isinstance(self, type) and issubclass(self, dict) \
            and name == "fromkeys":
        return sx_dict([(k, args[1] if len(args) > 1 else None)
                        for k in args[0]])
    if isinstance(self, set):
        if name == "add":
            if not bool(sx_in(args[0], self)):
                self.add(args[0])
            return None
        if name in ("discard", "remove"):
            for y in list(self):
                if y is args[0] or bool(eq(y, args[0])):
                    self.remove(y)
                    return None
            if name == "remove":
                raise KeyError(args[0])
            return None
        if has_sym(self) or has_sym(args):
            return _setop(self, name, args, kw)
        return f(*args, **kw)
    if isinstance(self, list):
        if name == "sort":
            key = kw.get("key")
            if key is not None:
                kw = dict(kw, key=lambda x: sx_call(key, x))
            return self.sort(*args, **kw)
        if name in ("pop", "insert") and args and isinstance(args[0], Sym):
            args = (args[0].__index__(),) + args[1:]
        return f(*args, **kw)
    return f(*args, **kw)


def _setop(self, name, args, kw):
    if name in ("copy", "clear", "pop"):
        return getattr(self, name)(*args, **kw)
    if name == "union":
        out = list(self)
        for a in args:
            out += list(a)
        return _mkset(set, out)
    if name == "update":
        for a in args:
            for x in a:
                if not bool(sx_in(x, self)):
                    self.add(x)
        return None
    if name in ("intersection", "difference") and len(args) == 1:
        other = list(args[0])
        want = name == "intersection"
        return set(x for x in self if bool(_any_eq(x, other)) == want)
    if name == "issubset":
        return all(bool(_any_eq(x, args[0])) for x in self)
    raise Unsupported("set.%s with symbolic elements" % name)


def sx_enter(name):
    E = core.ENGINE
    if E is not None:
        E.functions.add(name)


HELPERS = {
    "_sx_in": sx_in,
    "_sx_notin": lambda x, c: sx_not(sx_in(x, c)),
    "_sx_getitem": sx_getitem,
    "_sx_setitem": sx_setitem, "_sx_delitem": sx_delitem, "_sx_mod": sx_mod,
    "_sx_iop": sx_iop, "_sx_is": sx_is, "_sx_fstr": sx_fstr,
    "_sx_joinsplit": sx_joinsplit, "_sx_fold": sx_fold,
    "_sx_set": sx_set, "_sx_dict": sx_dict, "_sx_call": sx_call,
    "_sx_enter": sx_enter,
}


def sx_not(x):
    if isinstance(x, SymBool):
        return mkbool(b_not(x))
    return not x
