#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--only <case>]: decides one property for /repo's working tree
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id=$1; shift
mkdir -p work out evidence
exec 9>work/lock
flock 9
sync_repo || exit 2

feature() {
    case $1 in
        C02|C12|C13) echo lossy ;;
        C04) echo c03 ;;
        C10) echo c09 ;;
        C15) echo c14 ;;
        C18|C19) echo faults ;;
        *) echo "$1" | tr C c ;;
    esac
}

build_mc() {
    local log=work/build.$id.log
    ( cd mc && cargo build --release --offline "$@" ) >"$log" 2>&1
}

run() {
    exec 9>&-      # the build is done: let other checks build
    "$@"
}

# C11, C17 and C21 explore random numbers and interleavings: a build with stand-ins for threads,
# locks, rayon and rand. Should the tree use something of these that they lack: without control.
tool=mc
case $id in
C11|C17|C21)
    if ( cd mcx && cargo build --release --offline ) >work/build.$id.ctl.log 2>&1; then
        tool=mcx
        cp mcx/target/release/mcx work/mcx.$id.$$
        run work/mcx.$id.$$ "$id" --root "$VERIF" "$@"
        rc=$?; rm -f "$VERIF/work/mcx.$id.$$"; exit $rc
    fi
    echo "$id: the controlled build failed (work/build.$id.ctl.log); using the uncontrolled one" >&2 ;;
esac

if [ $tool = mc ]; then
    # the whole harness; failing that (an interface it uses was changed), the part this property needs
    f=$(feature "$id")
    case $id in C11|C17) extra="--features $f" ;; *) extra= ;; esac
    if ! build_mc $extra; then
        if ! build_mc --no-default-features --features "small,$f" --target-dir target/part; then
            if ! build_mc --no-default-features --features "$f" --target-dir target/part; then
                tail -40 work/build.$id.log >&2; echo "$id: the harness does not build" >&2; exit 2
            fi
        fi
        exe=mc/target/part/release/mc
    else
        exe=mc/target/release/mc
    fi
    if [ "$id" = C20 ]; then
        if ! ( cd work/pkg && cargo build --offline --target-dir "$VERIF/work/bin" ) >work/build.$id.bin.log 2>&1; then
            tail -40 work/build.$id.bin.log >&2; echo "$id: the program does not build" >&2; exit 2
        fi
    fi
    # a copy of its own: another check may rebuild the harness meanwhile
    cp $exe work/mc.$id.$$
    run work/mc.$id.$$ "$id" --root "$VERIF" "$@"
    rc=$?; rm -f "$VERIF/work/mc.$id.$$"; exit $rc
fi
