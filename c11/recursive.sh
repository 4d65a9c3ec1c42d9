# Types that contain themselves: as they cannot be used (finding "recursive-types"), this is a crate of
# its own. Anything but the failure that is listed counts as a violation.
rec_log=$VERIF_DIR/target/build-C11-rec.log
if cargo build --manifest-path c11/rec/Cargo.toml --release --offline >"$rec_log" 2>&1; then
    "$CARGO_TARGET_DIR/release/c11-rec" >>"$rec_log" 2>&1
    rec=$?
elif ! grep '^error' "$rec_log" | grep -qv '^error\[E0275\]\|^error: could not compile' &&
    grep -q '^error\[E0275\]' "$rec_log" && grep -q '^finding: property=C11 key=recursive-types' known_findings.txt; then
    echo "KNOWN-FINDING: property=C11 $(sed -n 's/^finding: property=C11 key=recursive-types //p' known_findings.txt)"
    rec=0
else
    rec=1
fi
if [ $rec != 0 ]; then
    cat "$rec_log"
    mkdir -p replays
    grep -v '^warning' "$rec_log" | tail -n 200 >replays/C11-recursive.txt
    echo "VIOLATION property=C11 replay=$VERIF_DIR/replays/C11-recursive.txt"
    exit 1
fi
