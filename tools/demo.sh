#!/bin/bash
# Builds demo.rs (beside this script) against the crates of the current
# directory (/repo) in a scratch folder and runs it: exit 0 = behaviour as promised.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
DEPS
[workspace]
T
sed -i "s|DEPS|$(sed -n 's|^// dep: ||p' "$HERE/demo.rs" | sed "s|REPO|$R|" | paste -sd '~' | sed 's/~/\\n/g')|" "$W/Cargo.toml"
cd "$W" || exit 99
export CARGO_TARGET_DIR=$W/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 98
cd "$W" && timeout 60 "$W/target/debug/demo"
