#!/bin/bash
# runbugs.sh [id ...]: run the check of each planted bug's property with the bug applied to /repo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(bin/sxcheck $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -4
done
