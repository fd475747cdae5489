#!/bin/bash
# builds the monitor programs against /repo's current working tree (arguments: passed on to cargo; none: both programs)
D="$(cd "$(dirname "$0")" && pwd)"
cd "$D/harness" || exit 3
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/.build" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= DOCS_RS=1
if [ $# -gt 0 ]; then
  exec cargo build --release --offline --quiet "$@"
fi
cargo build --release --offline --quiet --bin hplmon || exit
cargo build --release --offline --quiet --bin hplcodec || echo "library monitors do not build"
