#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it in a scratch folder.
. /opt/vp/env.sh
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/src" "$D/vendor-nitrate" "$D/Cargo.lock" "$T/" || exit 2
sed "s#@R@#$R#" "$D/deps.toml" > "$T/Cargo.toml"
cat >> "$T/Cargo.toml" <<E2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[patch.crates-io]
nitrate-program = { path = "vendor-nitrate" }
[profile.dev]
debug = false
E2
cd "$T" && REPO="$R" SCRATCH="$T" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/target" cargo run --offline -q
