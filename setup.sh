#!/bin/bash
# Builds the harness once, offline; every check rebuilds what it needs from /repo's working tree.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/harness/target" RUSTFLAGS=-Awarnings
cargo build --offline -q --manifest-path harness/Cargo.toml --workspace
