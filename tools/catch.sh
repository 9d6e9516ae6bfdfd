#!/bin/bash
# catch.sh ID...: which verdict does the check of the planted change's property give?
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  (cd /verif && timeout 900 python3 run.py $p --tier quick > /tmp/catch.$id.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p: exit $rc, $(grep -c '^VIOLATION' /tmp/catch.$id.log) violations; $(grep -m3 "^$p: " /tmp/catch.$id.log | tr '\n' ' ')"
done
