#!/bin/bash
# usage: check.sh <property> [quick|thorough] [family filter]
#        check.sh replay <file>
#        check.sh build
# Builds the model checker against /repo's current working tree and runs one check.
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export MC_ROOT=$PWD
T=$MC_ROOT/target
mkdir -p "$T" evidence
# the broker as it is released
real() {
    local log=$T/build.real.$$
    if ! (cd real && cargo build --locked --offline --target-dir "$T/real") >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -80 >&2
        rm -f "$log"
        return 1
    fi
    rm -f "$log"
}
build() {
    local log=$T/build.log.$$
    if ! (cd mc && cargo build --locked --offline --target-dir "$T" "$@") >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -80 >&2
        rm -f "$log"
        echo "check.sh: build failed" >&2
        exit 2
    fi
    rm -f "$log"
}
case "$1" in
build)
    build -p mc -p mc-passwd -p mc-keepalive -p mc-codec
    real || exit 2
    exit 0
    ;;
replay)
    ID=$(sed -n 's/^property: //p' "$2" | head -1)
    ARGS=(replay "$(readlink -f "$2")")
    ;;
C[0-9][0-9])
    ID=$1
    ARGS=(check "$1" "${2:-quick}")
    [ -n "$3" ] && ARGS+=("$3")
    ;;
*)
    sed -n 2,4p "$0" >&2
    exit 2
    ;;
esac
BIN=mc
R=
case "$ID" in
C17 | C18 | C20 | C24 | C28 | C31 | C32) ;;
*)
    real &
    R=$!
    ;;
esac
case "$ID" in
C17 | C18 | C28 | C31 | C32) build -p mc -p mc-passwd ;;
C20)
    # without the messaging service should its functions have changed
    (build -p mc-keepalive) 2>/dev/null || build -p mc-keepalive --no-default-features
    BIN=mc-keepalive
    ;;
C24) build -p mc-codec && BIN=mc-codec ;;
*) build -p mc ;;
esac
[ -z "$R" ] || wait $R || { echo "check.sh: build failed" >&2; exit 2; }
exec "$T/debug/$BIN" "${ARGS[@]}"
