#!/bin/bash
# run with cwd = repository root; builds the demo program beside this file against it
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
sed "s#@REPO@#$REPO#" "$HERE/Cargo.toml.in" > "$W/Cargo.toml"
cp "$HERE/Cargo.lock.in" "$W/Cargo.lock"
cp "$HERE/main.rs" "$W/src/main.rs"
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo build --offline --quiet 2>"$W/log" || { tail -30 "$W/log"; exit 2; }
timeout 60 "$W/target/debug/demo"
