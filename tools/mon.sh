#!/bin/bash
# build one monitor and run it: tools/mon.sh <pkg> <bin> args...   (development helper)
cd "$(dirname "$0")/../harness" || exit 9
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/target RUSTFLAGS="--cfg verif_hooks"
pkg=$1; bin=$2; shift 2
cargo build --release --offline -q -p $pkg --bin $bin 2>/tmp/mon.err || { grep -E "^error" -A9 /tmp/mon.err | head -${LINES_MAX:-80}; exit 4; }
grep -E "^warning: unused" -A4 /tmp/mon.err | grep harness -A3 | head -0
exec ../build/target/release/$bin "$@"
