#!/bin/bash
# Builds the verifier once; every check builds what it finds missing by itself.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
cargo +nightly build --release --offline --manifest-path dv/Cargo.toml --target-dir build/dv 2>&1 | tail -2
exit 0
