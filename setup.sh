#!/bin/bash
# Checks that everything needed is there and compiles the common part once.
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$root/harness/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$root/harness" && cargo +stable build --offline --lib && cargo +stable build --offline --profile ship --lib
