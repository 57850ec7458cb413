#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}"
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$HERE/demo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
differential-dataflow = { path = "$REPO/differential-dataflow" }
differential-dogs3 = { path = "$REPO/dogsdogsdogs" }
interactive = { path = "$REPO/interactive" }
timely = "0.31"
columnar = "0.13"
[workspace]
T
cd "$W" && cargo build --offline -q || { echo "demo does not build"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
