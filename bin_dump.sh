#!/bin/sh
# dumps the MIR of /repo's current tree to $1
set -e
D=$(cd "$(dirname "$0")" && pwd)
C="$D/.cache"; mkdir -p "$C" "$1"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
if [ ! -x "$C/mirdump/debug/mirdump" ] || [ "$D/mirdump/src/main.rs" -nt "$C/mirdump/debug/mirdump" ]; then
  (cd "$D/mirdump" && CARGO_TARGET_DIR="$C/mirdump" cargo +nightly build --offline -q)
fi
cd /repo
(CARGO_TARGET_DIR="$C/nt" cargo +nightly clean --offline -q -p krill-sync) 2>/dev/null || true
VX_OUT="$1" CARGO_TARGET_DIR="$C/nt" RUSTC_WORKSPACE_WRAPPER="$C/mirdump/debug/mirdump" cargo +nightly check --offline -q
