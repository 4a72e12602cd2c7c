#!/opt/veriftools/pyvenv/bin/python
"""Decide one property: python check.py C01 [--tier quick|thorough]"""
import argparse
import ast
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sx.base import REPO                                    # noqa: E402

REAL_PY = "/opt/venv/bin/python"
BUDGET = {"quick": 420, "thorough": 3600}
NPROC = int(os.environ.get("SX_PROCS", "8"))


def _init():
    sys.setrecursionlimit(4000)


def _one(args):
    task, deadline, pid = args
    from sx import worker
    if time.time() > deadline:
        return {"module": task["module"], "fn": task["fn"],
                "params": task["params"], "skipped": True}
    o = task.get("opts", {})
    return worker.run_task(task, deadline,
                           max_witness=o.get("max_witness", 25),
                           max_paths=o.get("max_paths"),
                           confirm=lambda r: reproduced(pid, [r]),
                           path_seconds=o.get("path_seconds", 120),
                           rlimit=o.get("rlimit", 60_000_000))


def replay(cases, procs=NPROC):
    """Run cases on the real code; returns results in order."""
    if not cases:
        return []
    n = min(procs, max(1, len(cases) // 8 + 1))
    chunks = [cases[i::n] for i in range(n)]
    jobs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    for ch in chunks:
        d = tempfile.mkdtemp(prefix="sxbatch")
        with open(os.path.join(d, "in.json"), "w") as f:
            json.dump(ch, f)
        p = subprocess.Popen(
            [REAL_PY, os.path.join(HERE, "creplay.py"),
             os.path.join(d, "in.json"), os.path.join(d, "out.json")],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        jobs.append((p, d, ch))
    outs = []
    for p, d, ch in jobs:
        try:
            _, err = p.communicate(timeout=25 * len(ch) + 60)
            with open(os.path.join(d, "out.json")) as f:
                outs.append(json.load(f))
        except Exception as x:
            p.kill()
            outs.append([{"status": "error", "detail": repr(x), "failed": [],
                          "observed": {}} for _ in ch])
        for n2 in os.listdir(d):
            os.unlink(os.path.join(d, n2))
        os.rmdir(d)
    res = [None] * len(cases)
    for i, o in enumerate(outs):
        res[i::n] = o
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def labels_in_source(module, fns):
    """Check labels written as constants in the harness functions used."""
    path = os.path.join(VERIF, *module.split(".")) + ".py"
    tree = ast.parse(open(path, "rb").read())
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name in fns:
            for c in ast.walk(node):
                if isinstance(c, ast.Call) and \
                        isinstance(c.func, ast.Attribute) and \
                        c.func.attr == "check" and c.args and \
                        isinstance(c.args[0], ast.Constant):
                    out.add(c.args[0].value)
    return out


def case_of(r, inputs, label=None):
    return {"module": r["module"], "fn": r["fn"], "params": r["params"],
            "inputs": inputs, "label": label}


def skipped_task(t, why):
    return {"module": t["module"], "fn": t["fn"], "params": t["params"],
            "skipped": True, "error": why}


def failing(o):
    if o["status"] == "fail":
        return sorted(set(o["failed"]))
    if o["status"] in ("exception", "hang"):
        return [o["status"]]
    return []


def find_known(known, pid, case, labels):
    for k in known:
        if k["property"] == pid and k["harness"] == case["fn"] and \
                all(lb in k["labels"] for lb in labels):
            return k
    return None


def reproduced(pid, results):
    """Does a counterexample of these tasks fail on the real code (and is it
    not a listed finding)?"""
    cases = []
    for r in results:
        cases += [case_of(r, c["inputs"], c["label"])
                  for c in r["candidates"][:2]]
    if not cases:
        return False
    known = load_known()
    for case, o in zip(cases, replay(cases)):
        labels = failing(o)
        if labels and not find_known(known, pid, case, labels):
            return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="run only this harness function")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    tier = a.tier if a.tier in BUDGET else "quick"
    t0 = time.time()
    budget = int(os.environ.get("SX_BUDGET", BUDGET[tier]))
    deadline = t0 + budget

    mod = importlib.import_module("props.tasks")
    tasks = mod.tasks(pid, tier)
    if a.only:
        tasks = [t for t in tasks if t["fn"] == a.only]
    order = sorted(range(len(tasks)),
                   key=lambda i: -tasks[i].get("opts", {}).get("weight", 1))
    results = [None] * len(tasks)
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC, _init, maxtasksperchild=8) as pool:
        its = {i: pool.apply_async(_one, ((tasks[i], deadline, pid),))
               for i in order}
        stop_at = deadline + 60
        while its and time.time() < stop_at:
            ready = [i for i in its if its[i].ready()]
            if not ready:
                time.sleep(0.02)
                continue
            for i in ready:
                try:
                    results[i] = its.pop(i).get()
                except Exception as x:
                    results[i] = skipped_task(tasks[i], repr(x))
            # a violation already reproduced on the real code settles the
            # outcome: what has not been explored is then cut short
            if stop_at > time.time() + 5:
                new = [results[i] for i in ready
                       if not results[i].get("skipped")]
                if reproduced(pid, new):
                    stop_at = time.time() + 5
        early = bool(its) and time.time() < deadline
        for i in its:
            results[i] = skipped_task(tasks[i], "stopped: violation found"
                                      if early else "time")
        pool.terminate()

    done = [r for r in results if not r.get("skipped")]
    skipped = [r for r in results if r.get("skipped")]

    # replay counterexamples and witnesses on the real code
    cand, wit = [], []
    for r in done:
        for c in r["candidates"]:
            cand.append((case_of(r, c["inputs"], c["label"]), c, r))
        for w in r["witnesses"]:
            wit.append((case_of(r, w["inputs"]), w, r))
    outs = replay([c[0] for c in cand] + [w[0] for w in wit])
    known = load_known()
    violations, known_hits, spurious, mismatches = [], [], [], []
    validated = 0

    def is_known(case, labels):
        return find_known(known, pid, case, labels)

    for (case, c, r), o in zip(cand, outs[:len(cand)]):
        labels = failing(o)
        if not labels:
            spurious.append({"case": case, "real": o})
            continue
        k = is_known(case, labels)
        if k:
            known_hits.append(k)
        else:
            violations.append((case, labels, o))
    for (case, w, r), o in zip(wit, outs[len(cand):]):
        labels = failing(o)
        if labels:
            k = is_known(case, labels)
            if k:
                known_hits.append(k)
            else:
                violations.append((case, labels, o))
            continue
        if o["status"] == "pass":
            if w.get("partial"):
                continue
            if o["observed"] == w["observed"]:
                validated += 1
            else:
                mismatches.append({"case": case, "symbolic": w["observed"],
                                   "real": o["observed"]})
        elif not w.get("partial"):
            mismatches.append({"case": case, "real": o})

    # vacuity: every check written in a harness must have been reached
    reached = {}
    for r in done:
        for lb, n in r["labels"].items():
            reached[(r["fn"], lb)] = reached.get((r["fn"], lb), 0) + n
    want = set()
    for m in {r["module"] for r in results}:
        for fn in {r["fn"] for r in results if r["module"] == m}:
            for lb in labels_in_source(m, {fn}):
                want.add((fn, lb))
    vacuous = sorted("%s/%s" % k for k in want if k not in reached)

    complete = (not skipped and not spurious and not mismatches and
                all(r["complete"] for r in done))
    problems = []
    for r in done:
        for k, n in r["unsupported"].items():
            problems.append("%s: %d paths not encoded (%s)" %
                            (r["fn"], n, k))
        for n in r["notes"]:
            problems.append("%s: %s" % (r["fn"], n))
    for r in skipped:
        problems.append("%s: not explored %s" % (r["fn"],
                                                 r.get("error", "")))
    problems = sorted(set(problems))

    rep_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for n in os.listdir(rep_dir):
        if n.startswith(pid + "-"):
            os.unlink(os.path.join(rep_dir, n))
    lines = []
    uniq = {}
    for case, labels, o in violations:
        uniq.setdefault((case["fn"], tuple(labels)), (case, labels, o))
    for i, (case, labels, o) in enumerate(list(uniq.values())[:20]):
        p = os.path.join(rep_dir, "%s-%d.json" % (pid, i))
        with open(p, "w") as f:
            json.dump({"property": pid, "case": case, "failed": labels,
                       "real_run": o,
                       "rerun": "python3 sx/rerun.py %s" % p}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        lines.append("  harness %s %s: failed %s; inputs %s" % (
            case["fn"], json.dumps(case["params"]), ", ".join(labels),
            json.dumps(case["inputs"])[:600]))

    fnset = sorted({f for r in done for f in r["functions"]})
    spec = mod.describe(pid, tier)
    cov = {
        "states": sum(r["paths"] for r in done),
        "transitions": sum(r["branches"] for r in done),
        "traces_validated_against_impl": validated,
        "samples": [c for c, w, r in wit[:3]],
        "exhaustive": complete,
        "harness_tasks": len(tasks),
        "tasks_explored": len(done),
        "solver_queries": sum(r["queries"] for r in done),
        "solver_seconds": round(sum(r["solver_s"] for r in done), 3),
        "assertions_decided": sum(r["checks"] for r in done),
        "assertions_decided_by_simplification":
            sum(r["checks_trivial"] for r in done),
        "assertion_labels": sorted("%s/%s" % k for k in reached),
        "unreached_assertions": vacuous,
        "functions_encoded": fnset,
        "bounds": spec["bounds"],
        "outside_bounds": spec["outside"],
        "encoding_mismatches": mismatches[:5],
        "unreproduced_counterexamples": spurious[:5],
        "inconclusive": problems[:40],
        "technique": "symbolic execution of /repo sources (AST to z3 "
                     "bit-vectors), z3 decides every branch and assertion",
    }
    ev = {"property": pid, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": "model_checking", "coverage": cov,
          "assumptions": spec["assumptions"],
          "wall_s": round(time.time() - t0, 3),
          "violations": len(uniq)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    seen = set()
    for k in known_hits:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d tasks, %d paths, %d branches, %d queries (%.1f s "
          "solver), %d assertions, %d witnesses replayed, complete=%s, "
          "%.1f s" % (pid, tier, len(done), cov["states"],
                      cov["transitions"], cov["solver_queries"],
                      cov["solver_seconds"], cov["assertions_decided"],
                      validated, complete, ev["wall_s"]))
    for p in problems[:20]:
        print("  inconclusive: " + p[:1500 if a.v else 300])
    for s in spurious[:5]:
        print("  not reproduced: %s" % json.dumps(s)[:1500 if a.v else 300])
    for s in mismatches[:5]:
        print("  encoding mismatch: %s" %
              json.dumps(s)[:1500 if a.v else 300])
    if vacuous:
        print("  unreached assertions: %s" % ", ".join(vacuous))
    if a.v:
        for r in sorted(done, key=lambda r: -r["wall_s"])[:10]:
            print("   %6.1fs %5d paths %s %s" % (r["wall_s"], r["paths"],
                                                 r["fn"], r["params"]))
    for ln in lines:
        print(ln)
    return 1 if uniq else 0


def main_in_scratch():
    """All temporary files go below one directory that is removed."""
    d = tempfile.mkdtemp(prefix="sxrun")
    tempfile.tempdir = d
    os.environ["TMPDIR"] = d
    try:
        return main()
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main_in_scratch())
