#!/bin/bash
# check.sh PROP         build from /repo's working tree and decide one property
# check.sh replay FILE  repeat a recorded violation
# check.sh build        build only
# Exit 0: held on everything explored; 1: violation; anything else: an error of the check.
cd "$(dirname "$0")" || exit 2
export DST_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-Awarnings" RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
build() { cargo build --offline --locked --quiet --manifest-path dst/Cargo.toml --profile "$1" 2>&1; }
mkdir -p "$CARGO_TARGET_DIR"
build plain >"$CARGO_TARGET_DIR/build.plain" & pid=$!
out=$(build checked) || { echo "$out" >&2; echo "build failed (checked)" >&2; wait; exit 2; }
wait $pid || { cat "$CARGO_TARGET_DIR/build.plain" >&2; echo "build failed (plain)" >&2; exit 2; }
bin="$CARGO_TARGET_DIR/checked/dst"
case "$1" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    one) shift; exec "$bin" one "$@" ;;
    *) exec "$bin" check "$1" ;;
esac
