#!/bin/bash
# Builds the harness against /repo's working tree. Output in target/.
# With "asan": the same with AddressSanitizer, in target/asan.
# With "derived": the crates that generated definitions are compiled against, in target/derived.
# With "portable": the crate of that name in every feature configuration, in target/portable.
set -e
cd "$(dirname "$0")/harness"
export CARGO_NET_OFFLINE=true
case "$1" in
asan)
    export CARGO_TARGET_DIR=../target/asan RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS=-Zsanitizer=address
    exec cargo build --offline --release -q --target x86_64-unknown-linux-gnu ;;
derived)
    cd ../derived
    export CARGO_TARGET_DIR=../target/derived RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
    mkdir -p "$CARGO_TARGET_DIR"
    exec cargo build --offline -q --message-format=json >"$CARGO_TARGET_DIR/build.json" ;;
portable)
    cd ../portable
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
    jobs=()
    for c in 0 1 2 3 4 5 6 7; do
        f=
        ((c & 1)) && f=$f,parallel
        ((c & 2)) && f=$f,mmap
        ((c & 4)) && f=$f,lz4_flex
        CARGO_TARGET_DIR=../target/portable/$c cargo build --offline -q -j 2 --features "${f#,}" &
        jobs+=($!)
    done
    for j in "${jobs[@]}"; do wait "$j"; done
    exit 0 ;;
esac
export CARGO_TARGET_DIR=../target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
exec cargo build --offline --release -q
