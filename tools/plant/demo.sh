#!/bin/bash
# builds and runs the scenario beside this file against the tree in the current directory
SELF="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/crate"
cp -r "$SELF/kit/src" "$W/crate/src"
cp "$SELF/main.rs" "$W/crate/src/main.rs"
cp "$SELF/kit/Cargo.lock" "$W/crate/Cargo.lock"
sed "s#@REPO@#$REPO#g" "$SELF/kit/Cargo.toml.in" > "$W/crate/Cargo.toml"
cd "$W/crate" || exit 2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER= DOCS_RS=1 CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}"
cargo build --offline --quiet 2>"$W/build.log" || { tail -30 "$W/build.log"; echo "demo does not build"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
