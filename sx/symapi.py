"""Symbolic implementation of the harness API."""
import builtins
import io
import os
import signal
import sys
import traceback

import z3

from . import core, fmt, rt, strs
from .base import (DIGITS, PRINTABLE, REPO, TEXT, UPPER, VERIF, Result,
                   ToolRun)
from .core import (EngineSignal, PathAbort, Sym, SymBool, SymInt,
                   Unsupported, as_bool_expr, b_and, b_not, b_or, bits_for,
                   i_le, ite_int, mkbool, mkint)
from .strs import Ch, SymStr, ch_in, lift, mkstr
from .xform import Loader

REAL_OPEN = builtins.open


class FuzzStub:
    """fuzzywuzzy is only used for suggestions; not part of any property."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return FuzzStub()

    def extract(self, name, choices, limit=10):
        # fuzzywuzzy 0.16.0 on Python >= 3.7
        if len(choices) == 0:
            raise RuntimeError("generator raised StopIteration")
        return [(c, 60) for c in list(choices)[:limit]]

    def __call__(self, *a, **k):
        raise Unsupported("fuzzy matching is not encoded")


class Capture:
    """Text stream collecting (symbolic) pieces."""
    encoding = "utf-8"

    def __init__(self):
        self.parts = []

    def sx_write(self, p):
        self.parts.append(p)

    def write(self, p):
        self.parts.append(p)
        return len(p) if type(p) is str else lift(p).n

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def lines(self):
        """The lines (without newline), as native or symbolic str."""
        out, cur = self.split_lines("")
        if type(cur) is not str or cur:
            out.append(cur)
        return out

    def split_lines(self, cur):
        """(completed lines, the rest), cur being the text before."""
        out = []
        pieces = []
        for p in self.parts:
            pieces += [p] if type(p) is str else lift(p).parts()
        for p in pieces:
            if type(p) is str:
                bits = p.split("\n")
                for b in bits[:-1]:
                    out.append(strs.s_concat(cur, b))
                    cur = ""
                cur = strs.s_concat(cur, bits[-1]) if bits[-1] else cur
                continue
            p = lift(p)
            start = 0
            if all(strs.dom_of(c) >> 10 & 1 == 0 for c in p.chars):
                cur = strs.s_concat(cur, p)
                continue
            while True:
                q = p._find("\n")
                if bool(core.i_lt(q, 0)):
                    if not start or not bool(mkbool(p.empty())):
                        cur = strs.s_concat(cur, p)
                    break
                start = 1
                out.append(strs.s_concat(cur, strs.s_sub(p, 0, q)))
                cur = ""
                p = lift(strs.s_sub(p, core.i_add(q, 1), p.n))
        if type(cur) is not str and bool(mkbool(lift(cur).empty())):
            cur = ""
        return out, cur


class VFile:
    """A file of the virtual file system, opened for reading."""
    encoding = "utf-8"

    def __init__(self, lines, name):
        self._it = list(lines)
        self.i = 0
        self.name = name
        self.closed = False

    def readlines(self, hint=-1):
        r = self._it[self.i:]
        self.i = len(self._it)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self._it):
            raise StopIteration
        self.i += 1
        return self._it[self.i - 1]

    def readline(self, *a):
        if self.i >= len(self._it):
            return ""
        self.i += 1
        return self._it[self.i - 1]

    def read(self, *a):
        ls = self.readlines()
        if not any(isinstance(x, Sym) for x in ls):
            return "".join(ls)

        def go():
            return strs.s_join("", ls)
        r = SymStr(None, None, go)
        r._lines = ls
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VWriter(Capture):
    def __init__(self, fs, name, old):
        Capture.__init__(self)
        self.fs = fs
        self.name = name
        self.old = old
        self.closed = False

    def close(self):
        if not self.closed:
            self.closed = True
            old, cur = self.old, ""
            if old and self.parts:
                t = Capture()
                t.write(old[-1])
                done, cur = t.split_lines("")
                old = old[:-1] + [strs.s_concat(x, "\n") for x in done]
            out, cur = self.split_lines(cur)
            self.fs[self.name] = old + \
                [strs.s_concat(x, "\n") for x in out]
            if type(cur) is not str or cur:
                self.fs[self.name].append(cur)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymbolicS:
    symbolic = True

    def __init__(self, engine, loader):
        self.E = engine
        self.loader = loader
        self.inputs = {}        # name -> ("int"/"bool"/"str"/"pick", proxy)
        self.checks = []        # (label, cond)
        self.observed = {}
        self.fs = {}
        self.writers = []

    # -- inputs
    def _new(self, name, kind, make):
        if name in self.inputs:
            raise RuntimeError("duplicate input name %s" % name)
        v = make()
        self.inputs[name] = (kind, v)
        return v

    def int(self, name, lo, hi):
        def make():
            if lo == hi:
                return lo
            w = bits_for(lo, hi)
            e = z3.BitVec(name, w)
            v = SymInt(e, lo, hi)
            self.E.assume(mkbool(z3.And(e >= lo, e <= hi)))
            return v
        return self._new(name, "int", make)

    def bool(self, name):
        return self._new(name, "bool", lambda: SymBool(z3.Bool(name)))

    def pick(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            self._new(name, "pick", lambda: 0)
            return seq[0]
        w = bits_for(0, len(seq) - 1)
        e = z3.BitVec(name, w)
        self.E.assume(mkbool(z3.And(e >= 0, e <= len(seq) - 1)))
        self.inputs[name] = ("pick", SymInt(e, 0, len(seq) - 1))
        return seq[self.E.choose(e, "pick")]

    def str(self, name, maxlen, minlen=0, alphabet=PRINTABLE):
        def make():
            if maxlen == 0:
                return ""
            dom = 0
            for c in alphabet:
                dom |= 1 << ord(c)
            key = ("str", name, maxlen, minlen, dom)
            hit = self.E.fresh_cache.get(key)
            if hit is None:
                chars = tuple(Ch(z3.BitVec("%s[%d]" % (name, i), 8), dom)
                              for i in range(maxlen))
                cs = []
                for c in chars:
                    k = ch_in(Ch(c.e, (1 << 256) - 1), dom)
                    if k is not True:
                        cs.append(k)
                if minlen == maxlen:
                    n = maxlen
                else:
                    e = z3.BitVec("len(%s)" % name, bits_for(0, maxlen))
                    n = SymInt(e, minlen, maxlen)
                    cs.append(z3.And(e >= minlen, e <= maxlen))
                hit = (SymStr(chars, n), z3.And(*cs) if cs else True)
                self.E.fresh_cache[key] = hit
            self.E.assume(hit[1])
            return hit[0]
        return self._new(name, "str", make)

    def settle(self, x):
        """Concrete value of x on this path (multi-way fork)."""
        if type(x) is SymInt:
            return x.concrete(None)
        return x

    def settle_int(self, name, lo, hi):
        return self.settle(self.int(name, lo, hi))

    # -- conditions
    def assume(self, cond):
        self.E.assume(cond)

    def check(self, label, cond):
        self.checks.append((label, as_bool_expr(cond)))

    def fork(self, cond):
        return bool(cond)

    def And(self, *xs):
        return mkbool(b_and(*[_b(x) for x in xs]))

    def Or(self, *xs):
        return mkbool(b_or(*[_b(x) for x in xs]))

    def Not(self, x):
        return mkbool(b_not(_b(x)))

    def Implies(self, a, b):
        return mkbool(b_or(b_not(_b(a)), _b(b)))

    def Iff(self, a, b):
        a, b = as_bool_expr(_b(a)), as_bool_expr(_b(b))
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return mkbool(b if a else b_not(b))
        if isinstance(b, bool):
            return mkbool(a if b else b_not(a))
        return mkbool(a == b)

    def ite(self, c, a, b):
        c = as_bool_expr(_b(c))
        if isinstance(c, bool):
            return a if c else b
        if core.toint(a) is not None and core.toint(b) is not None:
            return ite_int(c, a, b)
        return a if self.E.fork(c) else b

    def observe(self, name, value):
        self.observed[name] = value

    def attempt(self, fn, *a, **k):
        try:
            return Result(rt.sx_call(fn, *a, **k))
        except z3.Z3Exception as x:
            raise Unsupported("z3: %s" % x)
        except (Exception, SystemExit) as x:
            return Result(exc=x)

    def setitem(self, obj, key, value):
        rt.sx_setitem(obj, key, value)

    # -- environment
    def file(self, name, lines):
        with REAL_OPEN(name, "w") as f:
            f.write("")
        self.fs[os.path.abspath(name)] = list(lines)

    def read_file(self, name):
        p = os.path.abspath(name)
        for w in self.writers:
            if w.name == p:
                w.close()
        return list(self.fs[p])

    def read_lines(self, name):
        """The lines of a file without their newlines; None: no file."""
        if os.path.abspath(name) not in self.fs:
            return None
        c = Capture()
        c.writelines(self.read_file(name))
        return c.lines()

    def open(self, file, mode="r", *a, **k):
        if isinstance(file, Sym):
            file = file.concrete()
        if isinstance(file, int):
            return REAL_OPEN(file, mode, *a, **k)
        p = os.path.abspath(os.fspath(file))
        if not p.startswith(os.getcwd() + os.sep):
            return REAL_OPEN(file, mode, *a, **k)
        if "r" in mode:
            if p not in self.fs:
                raise FileNotFoundError(2, "No such file or directory", file)
            if "b" in mode:
                raise Unsupported("binary read of a symbolic file")
            return VFile(self.fs[p], file)
        old = self.fs.get(p, []) if "a" in mode else []
        REAL_OPEN(p, "a").close()
        self.fs[p] = old
        w = VWriter(self.fs, p, old)
        self.writers.append(w)
        return w

    def quiet(self):
        return _Quiet()

    def tool(self, script, argv):
        path = os.path.join(REPO, "tools", script + ".py")

        def main():
            self.loader.load_path("tool_" + script.replace("-", "_"),
                                  path).main()
        return self.run(main, script, argv)

    def run(self, fn, script="python", argv=()):
        """Call fn with its standard output and error captured."""
        out, err = Capture(), Capture()
        save = sys.argv, sys.stdout, sys.stderr
        sys.argv = [script] + list(argv)
        sys.stdout, sys.stderr = out, err
        exc = None
        try:
            fn()
        except z3.Z3Exception as x:
            raise Unsupported("z3: %s" % x)
        except (Exception, SystemExit) as x:
            exc = x
        finally:
            sys.argv, sys.stdout, sys.stderr = save
        return ToolRun(out.lines(), err.lines(), exc)


def _b(x):
    if isinstance(x, (bool, SymBool)):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymStr):
        return mkbool(b_not(x.empty()))
    return bool(x)


class _Quiet:
    def __enter__(self):
        self.save = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = Capture(), Capture()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.save


def eval_value(model, v, depth=0):
    """Concrete value of v under the model (JSON-able)."""
    t = type(v)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_signed_long()
    if t is SymBool:
        return z3.is_true(z3.simplify(
            model.eval(v.e, model_completion=True)))
    if isinstance(v, SymStr):
        n = v.n
        if type(n) is SymInt:
            n = eval_value(model, n)
        out = []
        for c in v.chars[:n]:
            if type(c) is Ch:
                c = model.eval(c.e, model_completion=True).as_long()
            out.append(chr(c))
        return "".join(out)
    if isinstance(v, (bool, int, str, type(None))):
        return v
    if isinstance(v, (list, tuple)) and depth < 6:
        return [eval_value(model, x, depth + 1) for x in v]
    return repr(type(v).__name__)
