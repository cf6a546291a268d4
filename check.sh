#!/bin/bash
# check.sh <property> [--replay FILE]: builds the check of one property against /repo's working tree and runs it.
# exit 0: held; exit 1: VIOLATION line; anything else: no verdict.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V=$(cd "$(dirname "$0")" && pwd)
export RBV_VERIF=$V CARGO_TARGET_DIR=$V/target/cargo
ID=$1; shift
F=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p "$V/target" "$V/evidence"
python3 "$V/tools/gen_root.py" >/dev/null || exit 2
FEATURES=$F
case $ID in C17|C20|C23|C29) FEATURES="$F,program" ;; esac
if ! cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" --features "$FEATURES" >"$V/target/build-$ID.log" 2>&1; then
  tail -n 40 "$V/target/build-$ID.log"
  echo "the check of $ID does not build against /repo" >&2
  exit 2
fi
mkdir -p "$V/target/bin/$ID"
cp -f "$V/target/cargo/debug/rbv" "$V/target/bin/$ID/rbv" || exit 2
case $ID in C17|C20|C23|C29) cp -f "$V/target/cargo/debug/rust_bit" "$V/target/bin/$ID/rust_bit" || exit 2 ;; esac
exec "$V/target/bin/$ID/rbv" "$ID" "$@"
