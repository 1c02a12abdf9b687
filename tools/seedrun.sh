#!/bin/bash
# seedrun.sh ID...: applies each planted change to /repo, runs its property's quick check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  out=$(cd /verif && VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 run.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 -E 'failing|ERROR|OK' | cut -c1-160)"
done
