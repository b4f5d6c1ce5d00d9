#!/bin/bash
# check.sh <package> <property> [args]: builds the harness package against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
pkg=$1
shift
log=$(mktemp)
if ! cargo build --offline --manifest-path "harness/$pkg/Cargo.toml" >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "BUILD FAILED (harness/$pkg)" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$pkg" "$@"
