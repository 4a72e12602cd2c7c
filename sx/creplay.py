"""Concrete execution of harness cases on the real, untransformed code.

Usage: python creplay.py BATCH.json OUT.json
Runs under the repository's own interpreter; needs neither z3 nor sx.core.
"""
import importlib
import importlib.util
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from sx.base import (DIGITS, PRINTABLE, REPO, TEXT, UPPER, Result,  # noqa
                     ToolRun)

sys.path.insert(0, REPO)


class Mismatch(BaseException):
    pass


class Vacuous(BaseException):
    pass


class Hang(BaseException):
    pass


class ConcreteS:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.observed = {}
        self.labels = set()

    def _get(self, name):
        if name not in self.inputs:
            raise Mismatch("no input %s" % name)
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def pick(self, name, seq):
        return list(seq)[self._get(name)]

    def str(self, name, maxlen, minlen=0, alphabet=PRINTABLE):
        return self._get(name)

    def settle(self, x):
        return x

    def settle_int(self, name, lo, hi):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise Vacuous()

    def check(self, label, cond):
        self.labels.add(label)
        if not cond:
            self.failed.append(label)

    def fork(self, cond):
        return bool(cond)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, name, value):
        self.observed[name] = value

    def attempt(self, fn, *a, **k):
        try:
            return Result(fn(*a, **k))
        except (Exception, SystemExit) as x:
            return Result(exc=x)

    def setitem(self, obj, key, value):
        obj[key] = value

    def file(self, name, lines):
        with open(name, "w", newline="") as f:
            for ln in lines:
                f.write(ln)

    def read_file(self, name):
        with open(name) as f:
            return f.readlines()

    def read_lines(self, name):
        if not os.path.exists(name):
            return None
        with open(name, newline="") as f:
            ls = f.read().split("\n")
        return ls if ls[-1] else ls[:-1]

    def quiet(self):
        return _Quiet()

    def tool(self, script, argv):
        path = os.path.join(REPO, "tools", script + ".py")

        def main():
            spec = importlib.util.spec_from_file_location(
                "tool_" + script.replace("-", "_"), path)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            m.main()
        return self.run(main, script, argv)

    def run(self, fn, script="python", argv=()):
        out, err = io.StringIO(), io.StringIO()
        save = sys.argv, sys.stdout, sys.stderr
        sys.argv = [script] + list(argv)
        sys.stdout, sys.stderr = out, err
        exc = None
        try:
            fn()
        except (Exception, SystemExit) as x:
            exc = x
        finally:
            sys.argv, sys.stdout, sys.stderr = save
        return ToolRun(out.getvalue().splitlines(),
                       err.getvalue().splitlines(), exc)


class _Quiet:
    def __enter__(self):
        self.save = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.save


def fresh_modules():
    for n in list(sys.modules):
        if n == "h800" or n.startswith("h800.") or n.startswith("props."):
            del sys.modules[n]


def plain(v):
    """JSON form of an observed value."""
    if isinstance(v, (bool, int, str, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return repr(type(v).__name__)


def run_case(case, timeout=20):
    S = ConcreteS(case["inputs"])
    res = {"status": "pass", "failed": [], "observed": {}}
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="sxreplay")

    def on_alarm(*a):
        raise Hang()
    try:
        os.chdir(tmp)
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(timeout)
        with _Quiet():
            fresh_modules()
            mod = importlib.import_module(case["module"])
            getattr(mod, case["fn"])(S, **case["params"])
    except Vacuous:
        res["status"] = "vacuous"
    except Mismatch as x:
        res["status"] = "mismatch"
        res["detail"] = str(x)
    except Hang:
        res["status"] = "hang"
    except (Exception, SystemExit):
        res["status"] = "exception"
        res["detail"] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    res["failed"] = S.failed
    if S.failed and res["status"] in ("pass", "exception", "vacuous"):
        res["status"] = "fail"
    res["observed"] = {k: plain(v) for k, v in S.observed.items()}
    return res


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = []
    for c in cases:
        try:
            out.append(run_case(c))
        except BaseException as x:         # never lose the batch
            out.append({"status": "error", "detail": repr(x), "failed": [],
                        "observed": {}})
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
