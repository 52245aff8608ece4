#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/common.rs" "$here/main.rs" "$t/src/"
cp Cargo.lock "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
engineering = { path = "$PWD" }
parking_lot = "0.12.0"
rustc-hash = "1.1.0"
[profile.dev]
debug = 0
opt-level = 1
[workspace]
X
export CARGO_TARGET_DIR="$t/target"
(cd "$t" && cargo build --offline -q 2>"$t/log") || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
