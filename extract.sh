#!/bin/bash
# extract.sh OUTDIR : compile /repo's current working tree (check only) through the fact
# extractor and leave cbindgen-lib.json / cbindgen-bin.json in OUTDIR.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${CBG_REPO:-/repo}
mkdir -p "$1"; OUT=$(cd "$1" && pwd)
CACHE=${CBG_CACHE:-$HERE/.cache}
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
mkdir -p "$CACHE" "$OUT"
exec 9>"$CACHE/lock"; flock 9
( cd "$HERE/driver" && CARGO_TARGET_DIR="$CACHE/driver" cargo build --offline -q )
LIB=$(rustc --print sysroot)/lib
export LD_LIBRARY_PATH="$LIB"
# cargo's freshness cache would skip the wrapper on a warm directory
rm -rf "$CACHE"/target/debug/.fingerprint/cbindgen-* "$CACHE"/target/debug/build/cbindgen "$CACHE"/target/debug/build/cbindgen-*
rm -f "$OUT"/*.json
cd "$REPO"
CARGO_TARGET_DIR="$CACHE/target" CBG_FACTS_OUT="$OUT" \
  RUSTC_WORKSPACE_WRAPPER="$CACHE/driver/debug/cbg-facts" \
  cargo check --offline --locked -q --lib --bins 2>"$OUT/cargo.log" || { cat "$OUT/cargo.log" >&2; exit 3; }
test -s "$OUT/cbindgen-lib.json" && test -s "$OUT/cbindgen-bin.json"
