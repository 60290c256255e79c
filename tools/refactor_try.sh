#!/bin/bash
# refactor_try.sh <id>...: does each behaviour-preserving rewrite compile and pass the repository's tests?
for id in "$@"; do
  d=/tmp/rf/try; mkdir -p $d; find $d -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +
  git -C /repo archive HEAD | tar -x -C $d
  (cd $d && patch -s -p1 < /verif/refactors/$id.diff && cargo test --offline >/tmp/rf/$id.log 2>&1; echo "$id rc=$? $(grep -a 'test result' /tmp/rf/$id.log | head -1)"; grep -aE '^error' -A8 /tmp/rf/$id.log | head -30)
done
