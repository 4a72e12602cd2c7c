#!/usr/bin/env python3
"""Writes ../DESIGN.md from the texts below, props/scope.py, properties.jsonl,
known_findings.json and tools_dev/catches.txt (recorded by catch.sh)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
from props.scope import SCOPE
props = {}
for x in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(x)
    props[p["id"]] = p
known = json.load(open(os.path.join(V, "known_findings.json")))

HEAD = open(os.path.join(HERE, "design_head.md")).read()
TAIL = open(os.path.join(HERE, "design_tail.md")).read()
HOW = {}
cur = None
for ln in open(os.path.join(HERE, "design_how.md")):
    if ln.startswith("## "):
        cur = ln[3:].strip()
        HOW[cur] = []
    elif cur:
        HOW[cur].append(ln.rstrip())

out = [HEAD]
out.append("## Properties, one by one\n")
out.append("Cost is wall time of the quick check on 8 cores, as last "
           "measured here.\n")
cost = json.load(open(os.path.join(HERE, "costs.json"))) \
    if os.path.exists(os.path.join(HERE, "costs.json")) else {}
for i in sorted(props):
    p = props[i]
    out.append("### %s  %s\n" % (i, p["title"]))
    out.append(" ".join(x for x in HOW.get(i, []) if x) + "\n")
    b, o = SCOPE[i]
    out.append("- quick: %s" % b["quick"])
    out.append("- thorough: %s" % b["thorough"])
    out.append("- outside: %s" % ("; ".join(o) or "nothing further"))
    if i in cost:
        out.append("- cost: %s" % cost[i])
    out.append("")
out.append("## Defects found\n")
out.append("Repaired in /repo (one `fix:` commit each; the check reports the "
           "violation again if it returns):\n")
for f in known["fixed"]:
    out.append("- " + f)
out.append("\nRecorded, not repaired (known_findings.json; printed as "
           "KNOWN-FINDING):\n")
for k in known["known"]:
    out.append("- %s: %s" % (k["property"], k["what"]))
out.append("")
out.append(TAIL)
c = os.path.join(HERE, "catches.txt")
out.append("## Planted bugs and what catches them\n")
out.append("`seeded/<id>` against the quick check of its property "
           "(exit status, seconds until the verdict).\n")
out.append("| bug | property | needs | outcome |")
out.append("|---|---|---|---|")
res = {}
if os.path.exists(c):
    for ln in open(c):
        w = ln.split()
        if len(w) >= 4:
            res[w[0]] = "caught, %s" % w[3] if w[2] == "rc=1" else \
                "MISSED (%s)" % w[2]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"],
                                          res.get(d, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
