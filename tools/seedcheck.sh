#!/bin/bash
# development aid: run each seeded bug's check on it
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do
  id=$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -f checks/${p,,}.py ] || { echo "$id $p no check yet"; continue; }
  r=$(python3 tools/try.py $p seeded/$id/patch.diff 2>&1 | grep -c "VIOLATION property=$p")
  echo "$id $p caught=$r"
done
