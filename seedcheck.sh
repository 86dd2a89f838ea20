#!/bin/bash
# dev tool: seedcheck.sh ID... : applies each seeded patch to /repo, runs the check of its property, undoes it
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: no apply"; continue; }
  s=$(date +%s); timeout 900 /verif/check.sh $P quick > /tmp/sc.$ID 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$ID $P exit=$r $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/sc.$ID)"
done
