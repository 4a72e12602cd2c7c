#!/bin/bash
# run the check of each planted bug (or of those named) with the bug applied
cd /verif
for d in seeded/${1:-}*; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s); out=$(python3-vt sx/check.py $p 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
