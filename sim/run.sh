#!/bin/bash
# bash sim/run.sh ARGS: builds the simulator against /repo's current tree, then runs `fvsim ARGS`.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" FV_DIR="${FV_DIR:-$(dirname "$PWD")}"
export RUSTC_WRAPPER="$PWD/rustc.sh"
unset RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_ENCODED_RUSTFLAGS
LOG=$(mktemp) || exit 2
if ! cargo build --offline --locked >"$LOG" 2>&1; then
    tail -40 "$LOG"
    rm -f "$LOG"
    echo "build failed"
    exit 2
fi
rm -f "$LOG"
[ $# -eq 0 ] && exit 0
exec target/debug/fvsim "$@"
