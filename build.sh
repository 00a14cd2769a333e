#!/bin/bash
# Builds the monitors (and with them over-there) from /repo's working tree.
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR="$(cd "$(dirname "$0")" && pwd)/target"
cd "$(dirname "$0")/harness" || exit 2
exec cargo build --offline --locked --quiet
