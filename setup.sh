#!/bin/bash
# Builds the simulator once (checks rebuild what changed).
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline -q 2>target-build.log || cargo build --offline -q --no-default-features 2>target-build.log || { grep -E "^error" -A8 target-build.log | head -40; exit 2; }
