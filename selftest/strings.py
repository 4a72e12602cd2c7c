"""Differential self-test of the string encoding."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import check, worker                                  # noqa: E402

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 400
OPS = [["strip"], ["lstrip"], ["rstrip"], ["slice", 1, 5], ["slice", 0, 3],
       ["slice", 2, None], ["slice", -3, None], ["slice", None, -1],
       ["del", " "], ["del", ","], ["del", "B"], ["sub", "A", "b"],
       ["sub", ",", "xy"], ["split0", ","], ["split1", ","], ["last", ","],
       ["splitall", ","], ["joinsplit", ","], ["joinsplit", " "], ["nows"], ["wsplit"], ["part", ","], ["rpart", ","],
       ["findcut", ","], ["rfindcut", ","], ["findcut", " "], ["upper"],
       ["lower"], ["isup"], ["cat", " A"], ["fmt"], ["count", ","],
       ["in", ","], ["in", "A"], ["in", "AB"], ["starts", "A"],
       ["starts", "AB"], ["ends", "B"], ["bool"], ["len", 2], ["just"],
       ["pick"], ["dict"], ["iter", " "]]
bad = 0
t0 = time.time()
for k in range(N):
    n = rnd.randint(0, 6)
    value = "".join(rnd.choice("AB,b \t") for _ in range(n))
    ops = [rnd.choice(OPS) for _ in range(rnd.randint(1, 5))]
    if rnd.random() < .5:
        ops[0] = ["strip"]
    lens = rnd.choice([[n, n], [0, n + 2]])
    if lens[1] == 0:
        continue
    for fn, p in (("pinned", {"value": value, "ops": ops, "lens": lens}),
                  ("free", {"ops": ops, "n": max(1, min(n, 4))})):
        r = worker.run_task({"module": "props.selfstr", "fn": fn,
                             "params": p}, time.time() + 20, max_witness=8,
                            max_paths=60)
        for c in r["candidates"]:
            bad += 1
            print("BAD", fn, p, c["label"], c["inputs"], c["detail"][-400:])
        cases = [{"module": "props.selfstr", "fn": fn, "params": p,
                  "inputs": w["inputs"], "label": None}
                 for w in r["witnesses"] if not w.get("partial")]
        if k % 10 == 0 or fn == "free" and k % 3 == 0:
            outs = check.replay(cases, 1)
            ws = [w for w in r["witnesses"] if not w.get("partial")]
            for c, w, o in zip(cases, ws, outs):
                if o["observed"] != w["observed"]:
                    bad += 1
                    print("MISMATCH", c, w["observed"], o)
print("%d pipelines, %d bad, %.0f s" % (N, bad, time.time() - t0))
sys.exit(1 if bad else 0)
