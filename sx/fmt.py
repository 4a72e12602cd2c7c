"""Formatting of symbolic values: str(), %-formatting, str.format, format()."""
import re
import string as _string

import z3

from .core import (Sym, SymBool, SymInt, Unsupported, b_and, b_not, eng,
                   i_add, i_eq, i_le, i_lt, i_max, i_sub, ite_int, mkbool,
                   mkint, rng, simp, toint, _ext, bits_for)
from .strs import (Ch, SymStr, ch_in, chars_of, concrete_str, is_str, lift,
                   mkstr, s_concat, s_repeat, s_sub)

DIG = (1 << 58) - (1 << 48)


def has_sym(x, depth=0):
    """Does x (or a plain container x) contain symbolic values?"""
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t in (int, str, bool, float, type(None), bytes):
        return False
    if depth > 6:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(k, depth + 1) or has_sym(v, depth + 1)
                   for k, v in x.items())
    return False


def user_class(x):
    """x is an instance of a class written in Python (not a builtin)."""
    return type(x).__flags__ & (1 << 9) != 0     # heap type


def concat_all(parts):
    out = ""
    for p in parts:
        if type(out) is str and type(p) is str:
            out += p
        else:
            out = s_concat(out, p)
    return out


def lazy(thunk):
    return SymStr(None, None, thunk)


def digits_nonneg(x, base, zeros=None):
    """Digits of a non-negative SymInt as (Sym)str, zero-filled to a
    constant width if one is given (and x is symbolic)."""
    if type(x) is int:
        return {10: "%d", 8: "%o", 16: "%x"}[base] % x if base != 2 \
            else bin(x)[2:]
    hi = x.hi
    if zeros is not None and 0 < zeros and base ** zeros <= hi and \
            bool(i_lt(x, base ** zeros)):
        x = mkint(x.e, x.lo, base ** zeros - 1)
        if type(x) is int:
            return digits_nonneg(x, base).rjust(zeros, "0")
        hi = x.hi
    if base == 10:
        n = len(str(hi))
        if n > 24:
            raise Unsupported("decimal text of a very wide integer")
        E = eng()
        key = ("dec", x.e.get_id(), n)
        if key not in E.fresh_cache:
            ds = [z3.BitVec("dec!%d!%d" % (len(E.fresh_cache), k), 4)
                  for k in range(n)]
            w = bits_for(0, 10 ** n)
            tot = z3.BitVecVal(0, w)
            for d in ds:
                tot = tot * 10 + z3.ZeroExt(w - 4, d)
            cs = [z3.ULE(d, 9) for d in ds]
            cs.append(tot == _ext(x, max(w, x.e.size()))
                      if w >= x.e.size() else
                      z3.SignExt(x.e.size() - w, tot) == x.e)
            E.fresh_cache[key] = (ds, z3.And(*cs), x)
        ds, ax, _ = E.fresh_cache[key]
        if not E.decided.get(key):
            E.decided[key] = True
            E.axiom(ax)
        chars = tuple(Ch(z3.Concat(z3.BitVecVal(3, 4), d), DIG) for d in ds)
        # reading these digits back gives x (by the axiom)
        E.dec_text[tuple(c.e.get_id() for c in chars)] = (x, chars)
        ln = 1
        for k in range(1, n):
            ln = i_add(ln, ite_int(i_le(10 ** k, x), 1, 0))
    else:
        sh = {2: 1, 8: 3, 16: 4}[base]
        n = max(1, -(-hi.bit_length() // sh))
        e = _ext(x, max(x.e.size(), n * sh))
        chars = []
        for k in reversed(range(n)):
            b = simp(z3.ZeroExt(8 - sh, z3.Extract(k * sh + sh - 1, k * sh,
                                                   e)))
            if base == 16:
                dom = DIG | ((1 << 103) - (1 << 97))
                chars.append(Ch(z3.If(z3.ULT(b, 10), b + 48, b + 87), dom))
            else:
                chars.append(Ch(simp(b + 48), (1 << (48 + base)) - (1 << 48)))
        chars = tuple(chars)
        ln = 1
        for k in range(1, n):
            ln = i_add(ln, ite_int(i_le(1 << (k * sh), x), 1, 0))
    full = mkstr(chars, n)
    if zeros is not None:
        # zero-filled to a constant width: no need to find the length
        if zeros >= n:
            return s_concat("0" * (zeros - n), full)
    return s_sub(full, i_sub(n, ln), n)


def int_text(x, base=10, prefix=""):
    """Text of an integer, with sign."""
    x = toint(x)
    if type(x) is int:
        t = digits_nonneg(abs(x), base)
        return ("-" if x < 0 else "") + prefix + t
    if x.lo < 0:
        if bool(i_lt(x, 0)):
            y = -x
            y = mkint(y.e, 1, y.hi) if type(y) is SymInt else y
            return concat_all(["-", prefix, digits_nonneg(y, base)])
        x = mkint(x.e, 0, x.hi)
        if type(x) is int:
            return int_text(x, base, prefix)
    return s_concat(prefix, digits_nonneg(x, base)) if prefix \
        else digits_nonneg(x, base)


def sx_str(x):
    """str(x) for any x."""
    t = type(x)
    if t is str or t is int or t is float or x is None or t is bool:
        return str(x)
    if issubclass(t, SymStr):
        return x
    if t is SymInt:
        r = lazy(lambda: int_text(x))
        r._origin = x
        return r
    if t is SymBool:
        return str(bool(x))
    if user_class(x) and not isinstance(x, (BaseException, str)):
        f = t.__str__
        if f is not object.__str__ and hasattr(f, "__code__"):
            return f(x)
        f = t.__repr__
        if f is not object.__repr__ and hasattr(f, "__code__"):
            if has_sym(x):
                return sx_repr(x)
            return f(x)
    if isinstance(x, BaseException) and len(x.args) == 1:
        return sx_str(x.args[0])
    if has_sym(x):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if issubclass(t, SymStr):
        return lazy(lambda: repr_str(x))
    if t is SymInt:
        return lazy(lambda: int_text(x))
    if t is SymBool:
        return repr(bool(x))
    if has_sym(x):
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            parts = [t.__name__, "("]
            for i, n in enumerate(x._fields):
                parts += [", " if i else "", n, "=", sx_repr(x[i])]
            return lazy(lambda: concat_all(parts + [")"]))
        if isinstance(x, list):
            items = [sx_repr(y) for y in x]
            return lazy(lambda: concat_all(["["] + _commas(items) + ["]"]))
        if isinstance(x, tuple):
            items = [sx_repr(y) for y in x]
            tail = [",)"] if len(items) == 1 else [")"]
            return lazy(lambda: concat_all(["("] + _commas(items) + tail))
        if isinstance(x, (set, frozenset)):
            items = [sx_repr(y) for y in x]
            return lazy(lambda: concat_all(["{"] + _commas(items) + ["}"]))
        if isinstance(x, dict):
            items = [(sx_repr(k), sx_repr(v)) for k, v in x.items()]

            def go():
                out = ["{"]
                for i, (k, v) in enumerate(items):
                    out += [", " if i else "", k, ": ", v]
                return concat_all(out + ["}"])
            return lazy(go)
    if user_class(x) and not isinstance(x, BaseException):
        f = t.__repr__
        if hasattr(f, "__code__") and f is not object.__repr__:
            return f(x)
    return repr(x)


def _commas(items):
    out = []
    for i, it in enumerate(items):
        if i:
            out.append(", ")
        out.append(it)
    return out


def repr_str(s):
    s = lift(s)
    odd = 0
    for c in list(range(32)) + [39, 92, 127]:
        odd |= 1 << c
    odd |= ((1 << 256) - 1) & ~((1 << 128) - 1)
    if bool(mkbool(s._any(odd))):
        return repr(s.concrete())
    return concat_all(["'", s, "'"])


_PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)"
                  r"(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?"
                  r"(?P<conv>[diouxXeEfFgGcrsa%])")


def _pad(text, width, left, fill=" "):
    if width is None or (type(width) is int and width == 0):
        return text
    t = lift(text)
    r = t.ljust(width, fill) if left else t.rjust(width, fill)
    return r


def percent(template, args):
    template = concrete_str(template)
    if not isinstance(args, (tuple, dict)) or \
            (isinstance(args, tuple) and hasattr(args, "_sx")):
        seq = (args,)
    else:
        seq = args
    if not has_sym(seq) and not _has_user(seq):
        return template % args
    plan = []
    pos = 0
    ai = 0

    def take():
        nonlocal ai
        if isinstance(seq, dict):
            if ai:
                raise TypeError("not enough arguments for format string")
            ai += 1
            return args
        if ai >= len(seq):
            raise TypeError("not enough arguments for format string")
        ai += 1
        return seq[ai - 1]

    for m in _PCT.finditer(template):
        plan.append(template[pos:m.start()])
        pos = m.end()
        conv = m["conv"]
        if conv == "%":
            plan.append("%")
            continue
        width = m["width"]
        if width == "*":
            width = take()
        elif width is not None:
            width = int(width)
        prec = m["prec"]
        if prec == "*":
            prec = take()
        elif prec is not None:
            prec = int(prec)
        if m["key"] is not None:
            from . import rt
            arg = rt.sx_getitem(args, m["key"])
        else:
            arg = take()
        plan.append(_one(arg, conv, m["flags"], width, prec))
    plan.append(template[pos:])
    if not isinstance(seq, dict) and ai < len(seq):
        raise TypeError("not all arguments converted during string "
                        "formatting")
    if all(type(p) is str for p in plan):
        return "".join(plan)
    return lazy(lambda: concat_all(p() if callable(p) else p for p in plan))


def _has_user(seq):
    vals = seq.values() if isinstance(seq, dict) else seq
    return any(user_class(v) and not isinstance(v, (str, int)) for v in vals)


def _one(arg, conv, flags, width, prec):
    left = "-" in flags
    if conv in "sra":
        text = sx_str(arg) if conv == "s" else sx_repr(arg)
        if prec is not None:
            text = s_sub(lift(text), 0, _min(lift(text).n, prec))
        if width is None:
            return text
        if type(text) is str and type(width) is int:
            return text.ljust(width) if left else text.rjust(width)
        return lambda: _pad(text, width, left)
    if conv == "c":
        return lambda: _pad(arg if is_str(arg) else mkchr(arg), width, left)
    if user_class(arg) and not isinstance(arg, (Sym, int, float)):
        f = getattr(type(arg), "__index__", None) or \
            getattr(type(arg), "__int__", None)
        if f is not None:
            arg = f(arg)
    if conv in "diuoxX":
        v = toint(arg)
        if v is None:
            if isinstance(arg, float):
                return ("%" + flags + (str(width) if width else "") + conv) \
                    % arg
            raise TypeError("%%%s format: a real number is required, not %s"
                            % (conv, type(arg).__name__))
        base = {"d": 10, "i": 10, "u": 10, "o": 8, "x": 16, "X": 16}[conv]
        prefix = ""
        if "#" in flags:
            prefix = {8: "0o", 16: "0x", 10: ""}[base]

        def go():
            return pad_int(v, base, prefix, width,
                           "<" if left else ">",
                           "0" if "0" in flags and not left else " ",
                           "+" if "+" in flags else
                           (" " if " " in flags else "-"),
                           upper=conv == "X", prec=prec)
        return go
    if isinstance(arg, Sym):
        arg = arg.concrete(64)
    return ("%" + flags + ("" if width is None else str(width)) +
            ("" if prec is None else "." + str(prec)) + conv) % arg


def _min(a, b):
    from .core import i_min
    return i_min(a, b)


def mkchr(i):
    from .strs import s_chr
    return s_chr(i)


def pad_int(v, base, prefix, width, align, fill, sign, upper=False,
            prec=None, zero_after_sign=True):
    if type(toint(width)) is SymInt:
        width = toint(width).concrete(400)
    if type(v) is int:
        neg = v < 0
    elif v.lo >= 0:
        neg = False
    else:
        neg = bool(i_lt(v, 0))
    mag = -v if neg else v
    if type(mag) is SymInt and mag.lo < 0:
        mag = mkint(mag.e, 0, mag.hi)
    head = ("-" if neg else ("" if sign == "-" else sign)) + prefix
    zeros = None
    if prec is not None:
        zeros = prec
    elif width is not None and fill == "0" and align in (">", "=") and \
            zero_after_sign and type(toint(width)) is int:
        zeros = max(0, toint(width) - len(head))
    text = digits_nonneg(mag, base, zeros if type(zeros) is int else None)
    if upper:
        text = text.upper()
    if prec is not None:
        text = _pad(text, prec, False, "0")
    if width is None:
        return s_concat(head, text) if head else text
    if fill == "0" and align in (">", "=") and zero_after_sign:
        body = _pad(text, i_max(0, i_sub(toint(width), len(head))), False,
                    "0")
        return s_concat(head, body) if head else body
    full = s_concat(head, text) if head else text
    return _pad(full, width, align == "<", fill)


_SPEC = re.compile(r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?"
                   r"(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<comma>[,_])?"
                   r"(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$", re.S)


def sx_format(x, spec=""):
    """format(x, spec)"""
    spec = concrete_str(spec) if isinstance(spec, Sym) else spec
    if not isinstance(x, Sym):
        if user_class(x) and not isinstance(x, (str, int)) and \
                type(x).__format__ is object.__format__:
            if spec == "":
                return sx_str(x)
            return format(x, spec)
        if has_sym(x) and spec == "":
            return sx_str(x)
        return format(x, spec)
    if spec == "":
        return sx_str(x)
    m = _SPEC.match(spec)
    if not m or m["comma"]:
        return format(x.concrete(64) if not isinstance(x, bool) else bool(x),
                      spec)
    width = int(m["width"]) if m["width"] else None
    if is_str(x):
        if m["type"] not in (None, "s") or m["align"] == "=" or m["sign"]:
            return format(x.concrete(), spec)
        fill = m["fill"] or ("0" if m["zero"] else " ")
        align = m["align"] or "<"
        if m["prec"]:
            x = s_sub(x, 0, _min(x.n, int(m["prec"])))
        if align == "^" and width:
            return format(concrete_str(x), spec)
        return lazy(lambda: _pad(x, width, align == "<", fill))
    if type(x) is SymBool:
        return format(bool(x), spec)
    if m["type"] not in (None, "d", "b", "o", "x", "X") or m["prec"] \
            or m["align"] == "^":
        return format(x.concrete(64), spec)
    base = {None: 10, "d": 10, "b": 2, "o": 8, "x": 16, "X": 16}[m["type"]]
    prefix = {2: "0b", 8: "0o", 16: "0x", 10: ""}[base] if m["alt"] else ""
    if m["align"]:
        fill = m["fill"] or ("0" if m["zero"] else " ")
        align = m["align"]
        zas = align == "="
        if align == "=" and fill != "0":
            return format(x.concrete(64), spec)
    else:
        fill = "0" if m["zero"] else " "
        align = ">"
        zas = bool(m["zero"])
    return lazy(lambda: pad_int(x, base, prefix, width, align, fill,
                                m["sign"] or "-", m["type"] == "X",
                                zero_after_sign=zas))


def str_format(template, args, kwargs):
    """template.format(*args, **kwargs)"""
    template = concrete_str(template)
    if not has_sym(args) and not has_sym(kwargs) and \
            not _has_user(args) and not _has_user(kwargs):
        return template.format(*args, **kwargs)
    auto = [0]
    return concat_all(_fmt_parts(template, args, kwargs, auto, 2))


def _fmt_parts(template, args, kwargs, auto, depth):
    out = []
    from . import rt
    for lit, field, spec, conv in _string.Formatter().parse(template):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == "":
            first = auto[0]
            auto[0] += 1
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, key in rest:
            obj = getattr(obj, key) if is_attr else rt.sx_getitem(obj, key)
        if conv == "r":
            obj = sx_repr(obj)
        elif conv == "s":
            obj = sx_str(obj)
        if spec and "{" in spec:
            spec = concat_all(_fmt_parts(spec, args, kwargs, auto, depth - 1))
        out.append(sx_format(obj, spec or ""))
    return out
