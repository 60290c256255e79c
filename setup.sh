#!/bin/bash
# Builds the harness for the tree as it is, so that the checks only have to rebuild what changed
cd "$(dirname "$0")" || exit 2
. ./lib.sh
mkdir -p work out evidence
sync_repo || exit 2
( cd mc && cargo build --release --offline ) || exit 2
( cd mcx && cargo build --release --offline ) || exit 2
( cd work/pkg && cargo build --offline --target-dir "$VERIF/work/bin" ) || exit 2
