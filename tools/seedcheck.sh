#!/bin/bash
# usage: seedcheck.sh ID...   applies the planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  out=$(cd /verif && bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t ))s: $(echo "$out" | grep -c '^VIOLATION') violations, $(echo "$out" | grep '^VIOLATION' | grep -vc no-failing-input) with input"
  [ "$SHOW" ] && echo "$out" | tail -8
done
