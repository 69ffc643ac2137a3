#!/bin/bash
# Builds the simulator against /repo's current working tree (debug assertions on). Prints only on failure.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
export PYO3_PYTHON=/usr/bin/python3.12
unset CARGO_BUILD_TARGET; export RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR="$PWD/target"
exec cargo build --release --offline --quiet
