#!/bin/bash
# Builds demo.rs against the swig-state crate of the current directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
swig-state = { path = "$repo/state" }
swig-assertions = { path = "$repo/assertions" }
swig-compact-instructions = { path = "$repo/instructions" }
pinocchio = { version = "0.9", features = ["std"] }
EOF
cd "$t"
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo run -q
