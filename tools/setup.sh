#!/bin/bash
# Builds the monitor library once, to show that everything needed is there. Every check builds what it
# needs from /repo's working tree by itself.
cd "$(dirname "$0")/../harness" || exit 1
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTFLAGS="--cfg vcmon" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../target CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build -q --offline --locked --lib 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
