#!/bin/bash
# Builds the simulation from /repo's current working tree (offline).
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTFLAGS=
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="${VSIM_TARGET:-/verif/target}"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
python3 repaired.py || exit 2
exec cargo build --offline --profile sim "$@"
