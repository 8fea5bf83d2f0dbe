#!/bin/bash
# Runs demo.rs against the mopaq crate of the current directory; exit 0 = behaves as it should.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export RUSTUP_TOOLCHAIN=1.86-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export DEMO_DIR="$HERE"
mkdir -p "$W/src" "$W/scratch"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat >"$W/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mopaq = { path = "$REPO/mopaq" }
EOT
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo build --offline -q >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
cd "$W/scratch" && timeout 120 "$W/target/debug/demo"
