#!/bin/sh
# builds the framework; every check also does this by itself when needed
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR=target/extract cargo build --offline --manifest-path tools/extract/Cargo.toml || exit 1
RUSTFLAGS="--cfg grenad_verif" CARGO_TARGET_DIR=target/replay cargo build --offline --manifest-path replay/Cargo.toml --features hooks || exit 1
python3 tools/own.py > /dev/null || true
