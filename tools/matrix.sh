#!/bin/bash
# Runs the check of each planted bug's property against it: matrix.sh [ids...]; prints id, property, exit status.
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for b; do
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b APPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh "$p" > /tmp/matrix.$b 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$b $p $r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/matrix.$b | cut -c1-110)"
  rm -f /tmp/matrix.$b
done
