#!/bin/bash
# seed_try.sh <id>...: confirms planted changes in a scratch copy: applies, builds, passes the stable tests,
# demo passes without and fails with the change.
T=/tmp/seed/try
rm -rf $T; mkdir -p /tmp/seed; cp -a /repo $T
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd $T
cargo build --offline >/dev/null 2>&1
for id in "$@"; do
  S=/tmp/seed/demo.$id; rm -rf $S; cp -r /verif/seeded/$id $S; rm -f $S/*.diff $S/meta.json
  git checkout -q -- . ; cargo build --offline >/dev/null 2>&1
  $S/demo.sh >$S.clean.log 2>&1; c=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  cargo build --offline >$S.build.log 2>&1 || { echo "$id: does not build"; tail -30 $S.build.log; continue; }
  cargo test --offline -- --test-threads 8 >$S.test.log 2>&1; t=$?
  $S/demo.sh >$S.bug.log 2>&1; b=$?
  verdict=BAD; [ $c = 0 -a $t = 0 -a $b != 0 -a $b != 3 ] && verdict=ok
  echo "$id: $verdict (demo clean=$c, tests=$t, demo bug=$b)"
  [ $verdict = BAD ] && tail -n 6 $S.bug.log && grep -a '^test .*FAILED' $S.test.log
  rm -rf $S
done
rm -rf $T
