#!/bin/bash
# Runs demo.rs (beside this script) as an integration test of a workspace crate; cwd is the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
NAME=zz_demo_c01_collapsed_chain
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$REPO/target" RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS LD_LIBRARY_PATH RUST_LOG
mkdir -p "$REPO/state/tests"
trap 'rm -f "$REPO/state/tests/$NAME.rs"' EXIT
cp "$HERE/demo.rs" "$REPO/state/tests/$NAME.rs" || exit 3
set -f
timeout -k 5 280 cargo test --workspace --exclude fr-integration --offline --locked --config 'profile.dev.package."*".debug=false' --features tiny,fuzz --test "$NAME" -- --test-threads 1
