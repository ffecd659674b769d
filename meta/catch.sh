#!/bin/bash
# applies each planted bug to /repo, runs the check of its property, undoes it (development aid)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  o=$(bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep -v VIOLATION | head -1 | cut -c1-220)"
done
