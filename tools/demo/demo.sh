#!/bin/bash
# Builds the demonstration against /repo and runs it: 0 = behaves, otherwise broken.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/demo"
cp -r "$here/mqtt-proto" "$work/"
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/demo/"
cd "$work/demo" || exit 9
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg akasa_verif" CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cargo build --offline -q >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 8; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
