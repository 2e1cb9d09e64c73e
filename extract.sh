#!/bin/bash
# extract.sh CACHEDIR OUTDIR: type-check the current /repo tree with the fact
# extractor as compiler and dump the MIR facts of its library crates.
set -e
C=$(realpath -m "$1")
OUT=$(realpath -m "$2")
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTUP_TOOLCHAIN
SYSROOT=$(rustc +nightly --print sysroot)
mkdir -p "$C" "$OUT"
if [ ! -x "$C/mirfacts" ] || [ "$HERE/driver/main.rs" -nt "$C/mirfacts" ]; then
  rustc +nightly --edition 2021 -O "$HERE/driver/main.rs" -o "$C/mirfacts.tmp.$$" 2>"$C/driver.log"
  mv "$C/mirfacts.tmp.$$" "$C/mirfacts"
fi
export CARGO_TARGET_DIR=$C/target
export LD_LIBRARY_PATH=$SYSROOT/lib
export RUSTC_WORKSPACE_WRAPPER=$C/mirfacts
export VERIF_FACTS_DIR=$OUT VERIF_FACTS_CRATES=quantlib,trading_engine
# cargo's freshness cache must not skip the local crates
for d in "$C/target/debug/.fingerprint/quantlib-"* "$C/target/debug/.fingerprint/trading-engine-"* \
         "$C/target/debug/build/quantlib" "$C/target/debug/build/trading-engine"; do
  [ -e "$d" ] && rm -rf "$d"
done
rm -f "$OUT/quantlib.json" "$OUT/trading_engine.json"
cd "$REPO"
cargo +nightly check --offline --locked -p quantlib -p trading-engine --lib
[ -s "$OUT/quantlib.json" ] && [ -s "$OUT/trading_engine.json" ]
