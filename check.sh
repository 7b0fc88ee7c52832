#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [SEED]; builds against /repo's current tree, then searches
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${3:-${VERIF_SEED:-1}}"
log="$(mktemp)"
# the optional shape functions need a build with the library's feature
case "$1" in
C29) target="$here/harness/target/ortho"; flags="--features ortho" ;;
*) target="$here/harness/target"; flags="" ;;
esac
if ! cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --target-dir "$target" $flags >"$log" 2>&1; then
    grep -A12 "^error" "$log" | head -60 >&2
    rm -f "$log"
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
export FEM2D_VERIF_ROOT="$here"
exec "$target/release/fem2d_verif" check "$1" "$tier" "$seed"
