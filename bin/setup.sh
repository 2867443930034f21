#!/bin/bash
# builds the extractor and the search crate's dependencies (the checks rebuild what they need)
set -e
cd "$(dirname "$0")/.."
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd vx/extract && cargo build --release --offline)
(cd native && cargo build --release --offline --features C17 --target-dir target)
