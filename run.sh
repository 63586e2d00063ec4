#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE]   or   run.sh --build-all
# Builds the harness crate that checks the property from /repo's working tree and runs it.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1
export CARGO_TARGET_DIR=$VERIF_DIR/target
mkdir -p "$CARGO_TARGET_DIR"

build() {
    (cd "$VERIF_DIR/harness/$1" && cargo build --offline --locked -q 2> "$CARGO_TARGET_DIR/$1.build.log") && return 0
    cat "$CARGO_TARGET_DIR/$1.build.log" >&2
    echo "error: the harness crate $1 does not build" >&2
    exit 2
}

if [ "$1" = --build-all ]; then
    for c in core idx orc cli wal cli2; do
        build $c
    done
    exit 0
fi

case "$1" in
    C0[1-9]|C1[01]|C1[3-9]) crate=core ;;
    C12|C2[0-5]) crate=idx ;;
    C29|C3[01]) crate=wal ;;
    C2[678]) crate=orc ;;
    C3[2-5]) crate=cli ;;
    C3[678]) crate=cli2 ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
esac
build $crate
exec "$CARGO_TARGET_DIR/debug/${crate}_checks" "$@"
