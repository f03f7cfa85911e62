#!/bin/bash
# Builds the program beside this script against the crate in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${DEMO_TARGET:-$S/target}"
mkdir -p "$S/p/src"
cp "$HERE/main.rs" "$S/p/src/main.rs"
cp "$HERE/Cargo.lock" "$S/p/Cargo.lock"
cat > "$S/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
box2d-rs = { path = "$REPO", features = ["serde_support"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
T
cd "$S/p" || exit 3
cargo build --offline -q 2> "$S/log" || { cat "$S/log"; exit 3; }
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
