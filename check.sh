#!/bin/bash
# usage: check.sh <property> quick|thorough      (or: check.sh replay <file>)
# Builds the harness against /repo's current working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --target-dir target >"$log" 2>&1; then
    grep -E '^error' -A8 "$log" | head -60 >&2
    rm -f "$log"
    echo "error: the harness does not build against /repo" >&2
    exit 3
fi
rm -f "$log"
if [ "$1" = replay ]; then exec target/release/mc replay "$2"; fi
exec target/release/mc run "$1" "${2:-quick}"
