"""Runs the repository's own tests through the transformed modules.

A check of the encoder: on concrete values the transformed code must behave
exactly like the original."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx.worker import ROOTS                                   # noqa: E402
from sx.symapi import FuzzStub                                # noqa: E402
from sx.xform import Loader                                   # noqa: E402

bad = n = 0
for name in sorted(os.listdir(ROOTS["h800"])):
    if not name.endswith("_test.py"):
        continue
    ld = Loader(ROOTS, {"fuzzywuzzy": FuzzStub()})
    try:
        m = ld.load("h800." + name[:-3])
    except Exception:
        traceback.print_exc()
        bad += 1
        continue
    for k in dir(m):
        f = getattr(m, k)
        if k.startswith("test") and callable(f):
            marks = getattr(f, "pytestmark", None)
            try:
                if f.__code__.co_argcount:
                    continue
                n += 1
                so = sys.stdout
                sys.stdout = open(os.devnull, "w")
                try:
                    f()
                finally:
                    sys.stdout = so
            except Exception:
                bad += 1
                print(name, k)
                traceback.print_exc()
print("%d tests, %d failures" % (n, bad))
sys.exit(1 if bad else 0)
