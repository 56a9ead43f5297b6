#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo. Prints the verdict line.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  python3 check.py $p ${TIER:-quick} > /tmp/rs.$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION /tmp/rs.$s.log) | $(grep -v VIOLATION /tmp/rs.$s.log | head -2 | cut -c1-200 | tr '\n' ' ')"
done
