#!/bin/bash
# run.sh <ID> <quick|thorough> [replay-file]
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; REPLAY="$3"
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TARGET="$HERE/target"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR
ulimit -c 0
mkdir -p "$VERIF_TARGET" "$HERE/evidence"
# a replay file for something that did not compile: building is the replay
if [ -n "$REPLAY" ] && grep -q '"check": *"support"' "$REPLAY"; then REPLAY=; fi
build() { # build <crate dir> <target dir>
  CARGO_TARGET_DIR="$2" cargo build --offline --quiet --manifest-path "$1/Cargo.toml" 2>"$VERIF_TARGET/build-$ID.log" || {
    cat "$VERIF_TARGET/build-$ID.log" >&2; echo "$ID: build failed" >&2; exit 3; }
}
# The programs that are about this property only. When the library builds and they do not, a program that uses the
# library's interface stopped compiling, and that is the answer.
statics() { # statics <target dir>
  local m="$HERE/sup/Cargo.toml" log="$VERIF_TARGET/build-$ID.log"
  CARGO_TARGET_DIR="$1" cargo build --offline --quiet --manifest-path "$m" --features "${ID,,}" 2>"$log" && return
  cat "$log" >&2
  if grep -q '^error' "$log" && grep -q 'could not compile `sup`' "$log" && grep -q -- '--> src/' "$log" &&
     ! grep -qi 'no space left\|signal: \|linking with' "$log" &&
     CARGO_TARGET_DIR="$1" cargo build --offline --quiet --manifest-path "$m" -p mpstthree 2>/dev/null; then
    mkdir -p "$HERE/replays"
    python3 "$HERE/tools/rejected.py" "$ID" "$TIER" "$VERIF_SEED" "$log" "$HERE"
    exit 1
  fi
  echo "$ID: build failed" >&2; exit 3
}
case "$ID" in
  C01|C02|C10|C11|C12|C14|C15|C16|C17|C22)
    build "$HERE/harness" "$VERIF_TARGET/h"
    exec "$VERIF_TARGET/h/debug/gen" "$ID" "$TIER" $REPLAY ;;
  C04|C20|C21)
    build "$HERE/harness" "$VERIF_TARGET/h"
    exec "$VERIF_TARGET/h/debug/gent" "$ID" "$TIER" $REPLAY ;;
  C13)
    build "$HERE/harness" "$VERIF_TARGET/h"
    exec "$VERIF_TARGET/h/debug/deviate" "$ID" "$TIER" $REPLAY ;;
  C03|C05|C50)
    statics "$VERIF_TARGET/s"
    exec "$VERIF_TARGET/s/debug/statics" "$ID" "$TIER" $REPLAY ;;
  C30|C31|C40|C41)
    # one target directory, so that the library is compiled once for the driver and for the generated files
    statics "$VERIF_TARGET/gt"
    exec "$VERIF_TARGET/gt/debug/statics" "$ID" "$TIER" $REPLAY ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
