#!/bin/bash
# Build the simulator against /repo's current working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$HERE/build/target" RUSTC_WRAPPER="$HERE/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
mkdir -p "$HERE/build"
cd "$HERE/sim" || exit 2
if ! cargo build --offline --quiet --bin sim > "$HERE/build/log" 2>&1; then
  cat "$HERE/build/log" >&2
  echo "build of the simulator failed" >&2
  exit 2
fi
