#!/bin/bash
# Builds the harness in both configurations (the checks rebuild it from
# /repo's current tree anyway).
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR=harness/target cargo build --offline --quiet --manifest-path harness/Cargo.toml
CARGO_TARGET_DIR=harness/target-ea cargo build --offline --quiet --features ea_real --manifest-path harness/Cargo.toml
java -version 2>&1 | head -1
