#!/bin/bash
# apply each named planted bug to /repo, run its property's check, undo; prints caught/missed
cd /verif
for s in "$@"; do p=${s%%-*}
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "NOAPPLY $s"; continue; }
  t=$SECONDS; out=$(timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s rc=$rc $((SECONDS-t))s $(echo "$out" | grep -m1 -E '^(VIOLATION|OK|ERROR)')"
done
