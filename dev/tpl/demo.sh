#!/bin/bash
# Builds a small program against a scratch copy of the sources in the current directory (with accessors
# appended to private modules where needed) and runs it.  Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/repo" "$T/p/src"
cp -r "$R/crates" "$R/Cargo.toml" "$T/repo/" || exit 99
for d in benches examples demos lobby; do [ -d "$R/$d" ] && cp -r "$R/$d" "$T/repo/"; done
[ -x "$D/inject.sh" ] && { (cd "$T/repo" && bash "$D/inject.sh" "$D") || exit 0; }
sed "s#@REPO@#$T/repo#g" "$D/Cargo.toml.in" > "$T/p/Cargo.toml"
cp "$D/Cargo.lock.in" "$T/p/Cargo.lock"
cp "$D/main.rs" "$T/p/src/main.rs"
cd "$T/p"
unset RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
cargo build --offline -q --features "$(cat "$D/features")" 2> "$T/log"
if [ $? -ne 0 ]; then tail -30 "$T/log"; echo "demo does not build"; exit 98; fi
timeout 120 "$T/target/debug/lyv"
