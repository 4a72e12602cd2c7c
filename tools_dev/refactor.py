#!/usr/bin/env python3
"""Apply behaviour-preserving edits to a scratch copy and run the checks on
it; every check must exit 0.  Usage: refactor.py FILE [names...]"""
import importlib.util, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("r", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
for name, path, edits, props in m.R:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="rf")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        bad = None
        for e in edits:
            p, old, new = e if len(e) == 3 else (path,) + e
            p = os.path.join(r, p)
            s = open(p, encoding="utf-8").read()
            if old is None:
                s2 = new
            else:
                if s.count(old) < 1:
                    bad = "no match %r" % old
                    break
                s2 = s.replace(old, new)
            open(p, "w", encoding="utf-8").write(s2)
        if bad:
            print(name, "BADEDIT", bad)
            continue
        t = subprocess.run("cd %s && PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x h800 2>&1 | tail -3" % (r, r), shell=True, capture_output=True, text=True)
        print(name, t.stdout.strip().splitlines()[-1], flush=True)
        for pid in props:
            t0 = time.time()
            c = subprocess.run(["/opt/veriftools/pyvenv/bin/python", V + "/sx/check.py", pid],
                               env=dict(os.environ, H800_REPO=r), capture_output=True, text=True)
            full = "complete=True" in c.stdout
            print("   %s rc=%d %.0fs complete=%s" % (pid, c.returncode, time.time() - t0, full), flush=True)
            if c.returncode or not full:
                print("\n".join("      " + x[:300] for x in (c.stdout + c.stderr).splitlines()[:8]), flush=True)
    finally:
        shutil.rmtree(d)
