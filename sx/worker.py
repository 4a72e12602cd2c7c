"""Explores one harness task (function + parameters) symbolically."""
import builtins
import gc
import io
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

import z3

from . import core
from .base import REPO, VERIF
from .core import Budget, Engine, EngineSignal, Unsupported, b_and, b_not
from .symapi import (REAL_OPEN, Capture, FuzzStub, SymbolicS, eval_value)
from .xform import Loader

ROOTS = {"h800": os.path.join(REPO, "h800"),
         "props": os.path.join(VERIF, "props")}


class PathTimeout(Unsupported):
    pass


def run_task(task, deadline, max_witness=40, path_seconds=120, confirm=None,
             max_paths=None, rlimit=60_000_000):
    t0 = time.time()
    gc.set_threshold(200000, 20, 100)
    E = Engine(deadline=deadline, rlimit=rlimit)
    res = {
        "module": task["module"], "fn": task["fn"], "params": task["params"],
        "paths": 0, "aborted": 0, "unsupported": {}, "candidates": [],
        "witnesses": [], "labels": {}, "complete": True, "notes": [],
        "checks": 0, "checks_trivial": 0,
    }
    cand_seen = {}
    state = {}
    old_cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="sxsym")
    os.chdir(tmp)
    save_out = sys.stdout, sys.stderr

    def on_alarm(*a):
        raise PathTimeout("path time limit")

    def run():
        for n in os.listdir(tmp):
            p = os.path.join(tmp, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        loader = Loader(ROOTS, {"fuzzywuzzy": FuzzStub()})
        S = SymbolicS(E, loader)
        state["S"] = S
        core.HASHED[0] = False
        state["exc"] = None
        builtins.open = io.open = S.open
        sys.stdout, sys.stderr = Capture(), Capture()
        signal.setitimer(signal.ITIMER_REAL, path_seconds)
        try:
            mod = loader.load(task["module"])
            getattr(mod, task["fn"])(S, **task["params"])
        except EngineSignal:
            raise
        except z3.Z3Exception as x:
            raise Unsupported("z3: %s" % x)
        except RecursionError:
            raise Unsupported("recursion")
        except (Exception, SystemExit) as x:
            state["exc"] = (type(x).__name__, str(_safe(x)),
                            traceback.format_exc()[-1800:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            builtins.open = io.open = REAL_OPEN
            sys.stdout, sys.stderr = save_out

    def inputs_of(S, model):
        return {k: eval_value(model, v) for k, (kind, v) in S.inputs.items()}

    def candidate(S, model, label, detail=""):
        n = cand_seen.get(label, 0)
        if n >= 3:
            return
        cand_seen[label] = n + 1
        res["candidates"].append({
            "label": label, "inputs": inputs_of(S, model), "detail": detail})
        if confirm is not None and not state.get("settled") and \
                len(res["candidates"]) <= 4:
            # reproduced on the real code: the rest of this task cannot
            # change the outcome
            builtins.open = io.open = REAL_OPEN
            if confirm(dict(res, candidates=res["candidates"][-1:])):
                state["settled"] = True
                E.deadline = min(E.deadline or 9e99, time.time() + 5)
                res["complete"] = False
                res["notes"].append("stopped: violation found")

    def on_path(kind, info):
        S = state.get("S")
        if kind == "abort":
            res["aborted"] += 1
            return
        res["paths"] += 1
        if kind == "unsupported":
            res["complete"] = False
            res["unsupported"][info] = res["unsupported"].get(info, 0) + 1
            # concolic fallback: the model of this path is still an input
            try:
                E.ensure_model()
                if len(res["witnesses"]) < max_witness:
                    res["witnesses"].append({
                        "inputs": inputs_of(S, E.model), "observed": {},
                        "partial": True})
            except EngineSignal:
                pass
            except Exception:
                pass
            # fall through to evaluate the checks reached so far
            if E.model is None:
                return
        if state["exc"] is not None:
            candidate(S, E.model, "exception:" + state["exc"][0],
                      state["exc"][2])
        todo = []
        for label, e in S.checks:
            res["labels"][label] = res["labels"].get(label, 0) + 1
            res["checks"] += 1
            if e is True:
                res["checks_trivial"] += 1
                continue
            if e is not False:
                e = core.simp(e)
                if z3.is_true(e):
                    res["checks_trivial"] += 1
                    continue
                if z3.is_false(e):
                    e = False
            if e is False:
                candidate(S, E.model, label)
            else:
                todo.append((label, e))
        try:
            if todo:
                decide(S, todo)
        except Unsupported as x:
            res["complete"] = False
            res["notes"].append(str(x))
        if kind == "ok" and state["exc"] is None:
            k = res["paths"]
            if len(res["witnesses"]) < max_witness or (
                    k & (k - 1)) == 0:
                try:
                    res["witnesses"].append({
                        "inputs": inputs_of(S, E.model),
                        "observed": {n: eval_value(E.model, v)
                                     for n, v in S.observed.items()}})
                except EngineSignal:
                    pass

    def decide(S, todo):
        """One query for all checks of the path; split on failure."""
        E.solver.push()
        try:
            E.solver.add(z3.Not(z3.And(*[e for _, e in todo])))
            r = E._check()
            if r == z3.unsat:
                return
            m = E._get_model() if r == z3.sat else None
        finally:
            E.solver.pop()
        if m is not None:
            bad = [lb for lb, e in todo
                   if z3.is_false(z3.simplify(
                       m.eval(e, model_completion=True)))]
            for lb in dict.fromkeys(bad):
                candidate(S, m, lb)
        left = {}
        for lb, e in todo:
            left.setdefault(lb, []).append(e)
        for lb, es in left.items():
            if cand_seen.get(lb):
                continue
            E.solver.push()
            try:
                E.solver.add(z3.Not(z3.And(*es)))
                r = E._check()
                if r == z3.sat:
                    candidate(S, E._get_model(), lb)
                elif r == z3.unknown:
                    raise Unsupported("solver unknown on check " + lb)
            finally:
                E.solver.pop()

    signal.signal(signal.SIGALRM, on_alarm)
    core.set_engine(E)
    try:
        lim = E.explore(run, on_path, max_paths)
        if lim:
            res["complete"] = False
            res["notes"].append(lim)
    except Budget:
        res["complete"] = False
        res["notes"].append("time budget used up")
    except BaseException as x:
        res["complete"] = False
        res["notes"].append("engine error: " + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        builtins.open = io.open = REAL_OPEN
        sys.stdout, sys.stderr = save_out
        os.chdir(old_cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        core.set_engine(None)
    if E.unknown_notes:
        res["complete"] = False
        res["notes"].append("%d branches with unknown feasibility" %
                            len(E.unknown_notes))
    if res["paths"] == 0:
        res["complete"] = False
        res["notes"].append("no feasible path")
    res["queries"] = E.n_queries
    res["solver_s"] = E.t_solver
    res["branches"] = E.n_branch
    res["functions"] = sorted(f for f in E.functions
                              if not f.startswith("props."))
    res["wall_s"] = time.time() - t0
    return res


def _safe(x):
    try:
        a = x.args[0] if x.args else ""
        return a if type(a) is str else "..."
    except Exception:
        return "..."
