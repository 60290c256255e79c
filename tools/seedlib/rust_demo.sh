#!/bin/bash
# Compiles a scratch copy of the program with demo.rs added as a test module, and runs it.
# Run with cwd = the repository. Exit 0: the property holds here; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/p" "$scratch/target/debug" "$scratch/cwd/output"
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$scratch/p/" || exit 3
# reuse what the build left of the dependencies (if anything)
for d in deps build .fingerprint; do
    [ -d "$repo/target/debug/$d" ] && cp -a "$repo/target/debug/$d" "$scratch/target/debug/"
done
printf '\n#[cfg(test)]\n#[path = "seeded_demo.rs"]\nmod seeded_demo;\n' >> "$scratch/p/src/main.rs"
cp "$here/demo.rs" "$scratch/p/src/seeded_demo.rs"
cd "$scratch/p" || exit 3
export CARGO_TARGET_DIR=$scratch/target
cargo test --offline --no-run >"$scratch/build.log" 2>&1 || { tail -30 "$scratch/build.log"; exit 3; }
exe=$(sed -n 's/.*Executable.*(\(.*\))/\1/p' "$scratch/build.log" | tail -1)
cd "$scratch/cwd" || exit 3
timeout 200 "$exe" --test-threads 1 seeded_demo:: 2>&1 | tail -c 3000
rc=${PIPESTATUS[0]}
[ "$rc" = 0 ] && echo "holds" || echo "broken (status $rc)"
exit "$rc"
