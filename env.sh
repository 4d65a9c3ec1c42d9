# Sourced by the check scripts.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:${PATH:-/usr/bin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never
export RUSTFLAGS="-Awarnings"
export RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset RUST_MIN_STACK
VERIF_DIR=$(pwd)
export VERIF_DIR
export CARGO_TARGET_DIR="$VERIF_DIR/target"
