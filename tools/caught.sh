#!/bin/bash
# (author tool) caught.sh id... : apply each seeded bug to /repo, run its property's check, undo; VERIF_SEED as set
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  r=$(cd /verif && timeout 900 python3 check.py $p 2>&1 | grep -E "^(OK|CHECK|VIOLATION)" | head -1)
  git -C /repo checkout -- .
  echo "$id $p: ${r:0:150}"
done
