#!/bin/bash
# refactor_check.sh <id,id,...>...: applies each group of behaviour-preserving rewrites to /repo, runs all quick checks, undoes it.
for group in "$@"; do
  for id in ${group//,/ }; do git -C /repo apply /verif/refactors/$id.diff || echo "$id does not apply"; done
  for p in ${CHECK:-$(cat /verif/tools/claimed.txt)}; do
    s=$(date +%s); bash /verif/check.sh $p --tier quick >/tmp/rf/check.$p.log 2>&1; rc=$?; e=$(date +%s)
    note=$(grep -aiE 'fall|uncontrolled|could not|VIOLATION' /tmp/rf/check.$p.log | head -2 | cut -c1-160 | tr '\n' '|')
    echo "$group $p rc=$rc $((e-s)) s $note"
    [ $rc = 0 ] || cp /tmp/rf/check.$p.log /tmp/rf/bad.$p.$(date +%s).log
  done
  git -C /repo checkout -q -- .
done
