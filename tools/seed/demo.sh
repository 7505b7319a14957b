#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/run"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
die-e = { path = "$repo" }
tch = "0.13.0"
rand = "0.8"
serde_json = "1.0.85"
serde = { version = "1", features = ["derive"] }
config = "0.13.1"
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$repo/target" cargo build -q --offline 2>"$d/log" || { cat "$d/log"; exit 2; } ; [ -x "$repo/target/debug/demo" ] || exit 2
cp "$repo/target/debug/demo" "$d/run/demo" || exit 2
cd "$d/run" && timeout 200 ./demo
