# Sourced by setup.sh and check.sh
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}

# Bring work/pkg in step with the working tree of /repo, by content: an unchanged file keeps its
# timestamp (no rebuild), a changed one gets a new timestamp (always rebuilt).
sync_repo() {
    mkdir -p "$VERIF/work/pkg/src"
    local f rel
    ( cd "$REPO" && find src Cargo.toml Cargo.lock -type f | sort ) > "$VERIF/work/list.new"
    while IFS= read -r rel; do
        if ! cmp -s "$REPO/$rel" "$VERIF/work/pkg/$rel"; then
            mkdir -p "$(dirname "$VERIF/work/pkg/$rel")"
            cp "$REPO/$rel" "$VERIF/work/pkg/$rel" && touch "$VERIF/work/pkg/$rel"
        fi
    done < "$VERIF/work/list.new"
    ( cd "$VERIF/work/pkg" && find . -path ./target -prune -o -type f -print | sed 's|^\./||' | sort ) > "$VERIF/work/list.old"
    comm -13 "$VERIF/work/list.new" "$VERIF/work/list.old" | while IFS= read -r rel; do
        [ -n "$rel" ] && rm -f "$VERIF/work/pkg/$rel"
    done
}
