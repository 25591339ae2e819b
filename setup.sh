#!/bin/bash
# Builds every harness crate once (checks rebuild what changed).
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2026-03-10 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LOG CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${MC_TARGET_DIR:-$ROOT/harness/target}"
cd "$ROOT/harness" && cargo build --release --offline --locked -q --workspace
