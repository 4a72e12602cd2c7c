"""Differential self-test of the floating-point encoding."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import worker                                         # noqa: E402

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 200
bad = 0
for k in range(N):
    n = rnd.choice([3, 20, 52, 53, 54, 55, 63, 64, 65])
    v = rnd.choice([2 ** n - 1, 2 ** n + 1, 2 ** n - 2, rnd.getrandbits(n),
                    2 ** n + 2 ** rnd.randint(0, n - 1) + rnd.randint(-1, 1)])
    y = rnd.choice([1, 2, 2 ** rnd.randint(0, 64), v or 1, v + 1, 3, 10,
                    2 ** rnd.randint(1, 64) - 1])
    c = rnd.choice([1.0, 0.5, v / y, float(v), 3.25, 2.0 ** 53])
    for fn in ("narrow",):
        r = worker.run_task({"module": "props.selfflt", "fn": fn, "params":
                             {"value": v,
                              "y": y, "c": c}}, time.time() + 30,
                            max_witness=2, max_paths=60)
        for x in r["candidates"]:
            bad += 1
            print("BAD", fn, v, y, c, x["label"], x["inputs"],
                  x["detail"][-300:])
print("%d expressions, %d bad" % (N, bad))
sys.exit(1 if bad else 0)
