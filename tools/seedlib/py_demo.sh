#!/bin/bash
# Drives the built program on generated images in a scratch directory.
# Run with cwd = the repository, built. Exit 0: the property holds here; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/output"
bin=$PWD/target/debug/cniic
cd "$scratch" || exit 3
timeout 200 python3 "$here/demo.py" "$bin"
rc=$?
[ "$rc" = 0 ] && echo "holds" || echo "broken (status $rc)"
exit "$rc"
