#!/bin/bash
# Decodes the streams of cases.txt with the decoder in the current directory and compares the results.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/demo/src"
cp "$here/main.rs" "$t/demo/src/main.rs"
cat > "$t/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
jpeg-decoder = { path = "$repo", @FEATURES@ }
[workspace]
TOML
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
unset RUSTFLAGS
cd "$t/demo" || exit 3
cargo build --offline -q @PROFILE@ 2>"$t/log" || { tail -20 "$t/log"; exit 3; }
@RUN@
