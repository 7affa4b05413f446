#!/bin/bash
# builds the extractor, the harness and the program (all offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --release --offline --locked)
CARGO_TARGET_DIR="$PWD/build/target" cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin reqtrace
CARGO_TARGET_DIR="$PWD/build/target" cargo build --offline --locked --manifest-path harness/Cargo.toml
