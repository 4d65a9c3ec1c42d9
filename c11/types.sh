# Writes the types of a tier and compiles them with the explorer of C11.
c11_build() {
    local tier=quick
    { [ "$1" = thorough ] || grep -qs "^tier=thorough" "$2"; } && tier=thorough
    python3 tools/gen_derived.py $tier "$CARGO_TARGET_DIR" || return 1
    for i in 0 1 2 3 4 5 6 7; do
        export C11_GEN_$i="$CARGO_TARGET_DIR/c11_${tier}_$i.rs"
    done
    cargo build --manifest-path c11/Cargo.toml --release --offline
}
