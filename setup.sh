#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
export RUSTFLAGS="-A warnings" CARGO_NET_OFFLINE=true
cargo build --offline --bin vh 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
