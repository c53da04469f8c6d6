#!/bin/bash
# seedtest.sh [ID...]: applies each planted change to /repo, runs the check of its property, undoes it
cd /verif
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); python3 check.py $p > /tmp/seed_$id.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -E 'VIOLATION|ERROR|NOTE' /tmp/seed_$id.txt | cut -c1-200) | $(grep -m1 'counterexample' /tmp/seed_$id.txt | cut -c1-160)"
done
