#!/bin/bash
# usage: check.sh ID   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree and runs the check of one property.
set -u
cd "$(dirname "$0")/harness" || exit 2
export RUSTFLAGS="-A warnings" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp)
if ! cargo build --offline --bin vh >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
exec ./target/debug/vh check "$1" "$(cd .. && pwd)"
