#!/bin/bash
# check.sh setup | build | ID [thorough] | replay FILE
# Builds bcalc from /repo's working tree and runs one check on it.
# Exit: 0 held, 1 violation (VIOLATION line), 2 and above: no answer.
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${PBT_REPO:-/repo}
build=${PBT_BUILD:-$verif/build}
export HOME=/root
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p "$build" || exit 2

build_harness() {
    (cd "$verif/harness" && CARGO_TARGET_DIR="$build/harness" cargo build --release --offline --locked) \
        >"$build/harness.log" 2>&1 || { tail -30 "$build/harness.log"; echo "cannot build the harness"; exit 2; }
    gcc -O1 -shared -fPIC -o "$build/shim.so" "$verif/harness/shim.c" -ldl -lpthread \
        >"$build/shim.log" 2>&1 || { cat "$build/shim.log"; echo "cannot build the shim"; exit 2; }
}

build_bcalc() {
    # The dev profile (overflow checks and debug assertions on), but optimised.
    export CARGO_TARGET_DIR="$build/bcalc" CARGO_INCREMENTAL=0
    export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
    export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
    # Always compile bcalc itself again: file times say nothing about a tree that was swapped.
    (cd "$repo" && cargo clean -p bcalc --offline) >"$build/bcalc.log" 2>&1
    (cd "$repo" && cargo build --offline --locked) >>"$build/bcalc.log" 2>&1 ||
        { tail -30 "$build/bcalc.log"; echo "cannot build bcalc"; exit 2; }
}

export PBT_VERIF=$verif PBT_BCALC=$build/bcalc/debug/bcalc PBT_SHIM=$build/shim.so
case $1 in
setup) build_harness; build_bcalc ;;
build) build_harness; build_bcalc ;;
replay) build_harness; build_bcalc; exec "$build/harness/release/bcalc-pbt" replay "$2" ;;
C[0-9][0-9]) [ "$2" = thorough ] && export VERIF_TIER=thorough
    build_harness; build_bcalc; exec "$build/harness/release/bcalc-pbt" check "$1" ;;
*) sed -n 2,4p "$0"; exit 2 ;;
esac
