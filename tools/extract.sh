#!/bin/bash
# Builds the MIR-facts driver and type-checks /repo's current tree with it; facts go to /verif/build/facts.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
. /opt/vp/env.sh
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$B/driver
(cd "$HERE/driver" && cargo build --offline -q) >&2
export MIRFACTS_WS=$B/ws
python3 "$HERE/tools/mkws.py" >&2
cp -n "$HERE/tools/Cargo.lock" "$B/ws/Cargo.lock" 2>/dev/null || true
export CARGO_TARGET_DIR=$B/target
export MIRFACTS_OUT=$B/facts
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$B/driver/debug/mirfacts
"$HERE/tools/models.sh" >&2
cd "$B/ws"
cargo check -Zchecksum-freshness --workspace --offline --lib --features "$FEATURES" >"$B/cargo.log" 2>&1 || { cat "$B/cargo.log" >&2; exit 2; }
