#!/bin/bash
# Runs main.rs (beside this file) against the crates in the current directory. Exit 0: as it should be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serdere = { path = "$repo/core" }
serdere-json = { path = "$repo/json" }
END
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR=$work/target CARGO_NET_OFFLINE=true
if ! cargo build --quiet --offline --manifest-path "$work/Cargo.toml" >"$work/log" 2>&1; then
    cat "$work/log"
    exit 3
fi
ulimit -c 0
timeout 60 "$work/target/debug/demo"
