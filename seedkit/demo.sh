#!/bin/bash
# Builds a small program against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$work"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$work/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/" || exit 99
cp "$here/main.rs" "$here/common.rs" "$work/src/" || exit 99
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 98; }
timeout 200 "$work/target/debug/demo"
