#!/bin/bash
# run.sh <property>: builds the harness against /repo's current tree and runs one check.
# VERIF_TIER=quick|thorough, VERIF_SEED=<n>; everything built or written stays below /verif.
set -u
. /opt/vp/env.sh 2>/dev/null
id=${1:?usage: run.sh <property>}
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_TARGET_DIR=$PWD/.build/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PLANUS_GEN_DIR=$PWD/.build/gen
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p .build/gen evidence replays
rm -f "$VERIF_DIR/evidence/$id.json"
log=$PWD/.build/build-$id.log
: > "$log"
build() { # build <crate> <cargo args...>
    local c=$1; shift
    if ! (cd "crates/$c" && timeout 800 cargo build --release --offline "$@") >>"$log" 2>&1; then
        echo "run.sh: building crates/$c failed:"
        grep -E "^error" -A12 "$log" | head -60
        exit 2
    fi
}
front=$CARGO_TARGET_DIR/release/front
gen() {
    build front
    rm -rf "$PLANUS_GEN_DIR"; mkdir -p "$PLANUS_GEN_DIR"
    timeout 300 "$front" gen-rt "$PLANUS_GEN_DIR" >>"$log" 2>&1 || { echo "run.sh: generating the suite's code failed:"; tail -20 "$log"; exit 2; }
}
gendeps() { # the crates that generated code needs, for compiling single files against
    export GENDEPS=$CARGO_TARGET_DIR/gendeps
    if ! (cd crates/gendeps && CARGO_TARGET_DIR=$GENDEPS timeout 800 cargo build --offline) >>"$log" 2>&1; then
        echo "run.sh: building crates/gendeps failed:"; grep -E "^error" -A12 "$log" | head -60; exit 2
    fi
}
rc=0
step() { "$@"; local r=$?; if [ $r -eq 1 ]; then [ $rc -eq 2 ] || rc=1; elif [ $r -ne 0 ]; then rc=2; fi; }
case $id in
C19)
    gen; build rt
    step "$CARGO_TARGET_DIR/release/rt" run "$id"
    gendeps
    step "$front" run "$id" --part programs ;;
C01|C03|C04|C05|C07)
    gen; build rt
    step "$CARGO_TARGET_DIR/release/rt" run "$id" ;;
C02|C06|C20)
    gen; build rt
    step "$CARGO_TARGET_DIR/release/rt" run "$id"
    CARGO_TARGET_DIR=$CARGO_TARGET_DIR/nulls build rt --no-default-features --features nulls
    step "$CARGO_TARGET_DIR/nulls/release/rt" run "$id" --part nocache ;;
C16)
    if ! CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli timeout 800 cargo build --offline --manifest-path /repo/crates/planus-cli/Cargo.toml >>"$log" 2>&1; then
        echo "run.sh: building planus-cli failed:"; grep -E "^error" -A12 "$log" | head -60; exit 2
    fi
    export PLANUS_CLI=$CARGO_TARGET_DIR/cli/debug/planus
    build front
    step "$front" run "$id" ;;
C11|C17)
    gendeps
    build front
    step "$front" run "$id" ;;
C21)
    build front --features tui
    step "$front" run "$id" ;;
C18)
    build cursor
    step "$CARGO_TARGET_DIR/release/cursor" run "$id" ;;
*)
    build front
    step "$front" run "$id" ;;
esac
exit $rc
