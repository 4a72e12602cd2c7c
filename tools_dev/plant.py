#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from bugs described in tools_dev/bugs_*.py.

Each bug: dict(id, prop, file, edits=[(old, new)...], demo=python text,
needs=..., breaks=...).  A bug is kept only if it touches original lines,
applies, builds, passes the stable tests, and its demo fails with it and
passes without it.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
BASE = "e989f03"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# Exit 0 if the property holds, nonzero if it is broken.  cwd: /repo
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
timeout 120 /opt/venv/bin/python "$here/demo.py" >/dev/null 2>"${DEMO_ERR:-/dev/null}"
'''
HEAD = '''import os, sys, tempfile, shutil, subprocess


def raises(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    return False


class Scratch:
    """A scratch directory that is the current directory within the block."""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp()
        os.chdir(self.d)
        return self

    def file(self, name, *lines):
        with open(name, "w") as f:
            f.writelines(x + "\\n" for x in lines)
        return name

    def tool(self, name, *args):
        return subprocess.run([sys.executable, os.path.join(
            self.old, "tools", name + ".py")] + list(args),
            capture_output=True, text=True)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def card(col1=" ", col8=" ", label="", op="", a="", b="", c="", misc="",
         remarks=""):
    return (col1 + " " * 6 + col8 + label.ljust(11) + op.ljust(13) +
            a.ljust(14) + b.ljust(14) + c.ljust(15) + misc.ljust(5) +
            remarks).rstrip()


'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def stable_ok(wd):
    out = tempfile.mktemp()
    sc = open("/opt/vp/test.sh").read()
    r = sh("bash /opt/vp/test.sh %s" % out)
    ok = json.load(open(out))
    os.unlink(out)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return set(base) <= set(ok["passed"])

def original_lines(path, olds):
    r = sh("git -C /repo show %s:%s" % (BASE, path)).stdout
    lines = {x.strip() for x in r.splitlines()}
    return any(o.strip() in lines for old in olds for o in old.splitlines()
               if len(o.strip()) > 3)

def main():
    which = sys.argv[2:]
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert sh("git -C /repo status --porcelain").stdout == ""
    for b in m.BUGS:
        if which and b["id"] not in which:
            continue
        edits = b["edits"]
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        with open(d + "/demo.py", "w") as f:
            f.write(HEAD + b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        why = None
        clean = sh("bash %s/demo.sh" % d, cwd="/repo",
                   env=dict(os.environ, DEMO_ERR="/tmp/demo.err"))
        if clean.returncode != 0:
            why = "demo fails on the clean tree: " + open("/tmp/demo.err").read()[-500:]
        try:
            olds = []
            for e in edits:
                path, old, new = e if len(e) == 3 else (b["file"],) + e
                p = os.path.join("/repo", path)
                s = open(p).read()
                if s.count(old) != 1:
                    why = "edit matches %d times: %r" % (s.count(old), old)
                    break
                if not original_lines(path, [old]):
                    why = why or "no original line in %r" % old
                open(p, "w").write(s.replace(old, new))
            if not why:
                diff = sh("git -C /repo diff").stdout
                open(d + "/patch.diff", "w").write(diff)
                if not stable_ok("/repo"):
                    why = "stable tests fail"
                else:
                    r = sh("bash %s/demo.sh" % d, cwd="/repo")
                    if r.returncode == 0:
                        why = "demo passes with the bug"
        finally:
            sh("git -C /repo checkout -- .")
        if why:
            shutil.rmtree(d)
            print("DROP", b["id"], why)
        else:
            print("keep", b["id"])

main()
