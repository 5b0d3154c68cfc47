#!/bin/bash
# bugrun.sh [ID...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  timeout 900 python3 check.py $p > /tmp/bugrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if grep -q "^VIOLATION property=$p" /tmp/bugrun.out; then echo "$i: caught rc=$rc | $(grep '^violation' /tmp/bugrun.out | head -1 | cut -c1-150)"; else echo "$i: MISSED rc=$rc | $(tail -3 /tmp/bugrun.out | cut -c1-250)"; fi
done
