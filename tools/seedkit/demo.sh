#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
beancount-parser-lima = { path = "$repo" }
rust_decimal = "1.40"
time = "0.3"
[workspace]
[profile.dev]
opt-level = 0
debug = 0
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo +nightly build --offline -q 2> "$d/log" || { tail -20 "$d/log" | cut -c1-300; exit 2; }
RUST_BACKTRACE=0 "$d/target/debug/demo"
