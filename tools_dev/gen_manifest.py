#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
from props.scope import SCOPE
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/veriftools/pyvenv/bin/python"
checks = []
for p in props:
    i = p["id"]
    if i not in SCOPE:
        continue
    b, out = SCOPE[i]
    checks.append({
        "property": i,
        "quick_cmd": "%s sx/check.py %s --tier quick" % (PY, i),
        "thorough_cmd": "%s sx/check.py %s --tier thorough" % (PY, i),
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the real Python source into SMT "
                     "(bit-vectors), z3 decides every branch and assertion",
        "level": "model_checking",
        "level_note": "Bounded: " + b["quick"] + ". Outside: " +
        ("; ".join(out) or "nothing stated") + ". Trusts z3 and the Python "
        "encoding in sx/, which every run cross-checks by replaying a model "
        "of each path on the real code; a violation is reported only after "
        "its counterexample fails on the real code."})
json.dump({"version": 1,
           "setup_cmd": "%s -c \"import z3; print(z3.get_version_string())\""
                        % PY,
           "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed: the checks read /repo's sources and "
                    "never write there. Genuine defects were repaired in "
                    "'fix:' commits or are listed in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
