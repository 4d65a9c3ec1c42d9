#!/bin/bash
# Usage: check.sh <property id> quick|thorough [other driver arguments]
# Builds the explorer of one property against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
id=$1
shift
. ./env.sh
bin=$(echo "$id" | tr A-Z a-z)
log=$VERIF_DIR/target/build-$id.log
mkdir -p "$VERIF_DIR/target"
if ! cargo build --manifest-path mc/Cargo.toml --release --offline $([ $id = C11 ] && echo --lib || echo "--bin $bin") >"$log" 2>&1; then
    cat "$log"
    echo "$id: the explorer does not build against /repo" >&2
    exit 2
fi
if [ $id = C11 ]; then
    # Compiling the derived types is part of what is checked
    . ./c11/types.sh
    if ! c11_build "$@" >>"$log" 2>&1; then
        cat "$log"
        mkdir -p replays
        grep -A 30 '^error' "$log" | head -n 500 >replays/C11-compile.txt
        grep -q '^error' replays/C11-compile.txt || exit 2
        echo "VIOLATION property=C11 replay=$VERIF_DIR/replays/C11-compile.txt"
        exit 1
    fi
    case "$*" in *--*) ;; *) . ./c11/recursive.sh ;; esac
fi
ulimit -c 0
ulimit -v $((20 * 1024 * 1024))
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
