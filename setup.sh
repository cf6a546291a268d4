#!/bin/bash
# Builds the dependencies and the harness once (the checks rebuild what changed).
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$V/target/cargo
mkdir -p "$V/target"
python3 "$V/tools/gen_root.py" >/dev/null || exit 1
cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" --features program
