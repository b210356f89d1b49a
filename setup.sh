#!/bin/bash
# builds the extractor and the replay harness (offline); every check does the same for itself
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd vx && cargo build --offline)
(cd replay && cargo build --offline --bins)
(cd macros && CARGO_TARGET_DIR=../replay/target cargo build --offline)
