#!/bin/bash
# builds every harness package once
cd "$(dirname "$0")" || exit 2
. ./env.sh
for p in kit langs base tools macros; do
    [ -f "harness/$p/Cargo.toml" ] || continue
    cargo build --offline --manifest-path "harness/$p/Cargo.toml" || exit 2
done
