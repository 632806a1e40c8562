#!/bin/bash
# Warm build of what the checks build; each check also builds it on its own when missing.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
RUSTFLAGS="--cfg substrate_parser_verif" CARGO_TARGET_DIR="$PWD/build/search" \
  cargo build --offline --locked --manifest-path search/Cargo.toml
cargo +1.98.1 build --offline --manifest-path /repo/Cargo.toml --lib --target-dir "$PWD/build/deps"
