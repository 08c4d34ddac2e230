#!/bin/bash
# Builds the simulator against /repo's working tree.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= ORT_LIB_LOCATION=/nonexistent
export CARGO_TARGET_DIR=${SIM_TARGET:-$V/work/target}
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER=$V/sim/cc-link
export RUSTFLAGS="-A warnings"
mkdir -p "$V/work"
python3 "$V/sim/prep.py" > /dev/null
cd "$V/sim"
exec cargo build --offline "$@"
