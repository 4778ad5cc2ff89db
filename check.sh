#!/bin/bash
# check.sh PROPERTY [quick|thorough] : rebuild the simulator from /repo's working tree, then search.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
tier=${2:-${VERIF_TIER:-quick}}
if ! cargo build --offline -q 2>target-build.log && ! cargo build --offline -q --no-default-features 2>target-build.log; then
    grep -E "^error" -A8 target-build.log | head -40
    echo "the simulator does not build against /repo"
    exit 2
fi
exec ./target/debug/sim check --property "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" 2>>target-build.log
