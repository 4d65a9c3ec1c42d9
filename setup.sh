#!/bin/bash
# Builds every explorer once, so that the checks only rebuild what depends on a change in /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p "$VERIF_DIR/target"
cargo build --manifest-path mc/Cargo.toml --release --offline || true
. ./c11/types.sh
c11_build quick || true
# What it depends on; the program itself does not compile (see known_findings.txt)
cargo build --manifest-path c11/rec/Cargo.toml --release --offline || true
exit 0
