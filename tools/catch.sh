#!/bin/bash
# catch.sh [ID...] : apply each planted change to /repo, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  out=$(timeout 900 python3 check.py --property $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -m1 '^  ' | cut -c1-220)"
done
