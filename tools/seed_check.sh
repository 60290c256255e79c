#!/bin/bash
# seed_check.sh <id>...: applies each planted change to /repo, runs the quick check of its property, undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); bash /verif/check.sh ${CHECK:-$p} --tier quick >/tmp/seed/check.$id.log 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p}: rc=$rc $((e-s)) s: $(grep -a VIOLATION /tmp/seed/check.$id.log | head -1 | cut -c1-150)"
done
