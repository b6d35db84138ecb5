#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it in a scratch folder.
. /opt/vp/env.sh
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/src" "$D/vendor-nitrate" "$D/Cargo.lock" "$T/" || exit 2
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
asset-program = { path = "$R/programs/asset/program" }
nifty-asset-types = { path = "$R/programs/asset/types" }
nitrate-program = "0.1.0"
solana-program = "~1.16"
[patch.crates-io]
nitrate-program = { path = "vendor-nitrate" }
[profile.dev]
debug = false
E
cd "$T" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/target" cargo run --offline -q
