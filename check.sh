#!/bin/bash
# usage: check.sh PROPERTY [sim options]   - builds the simulator from /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
here=$PWD
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" RUSTFLAGS="" CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
unset RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/sim/target"
if ! cargo build --offline --release --manifest-path "$here/sim/Cargo.toml" >"$here/sim/build.log" 2>&1; then
  echo "BUILD FAILED"; tail -40 "$here/sim/build.log"; exit 2
fi
[ "$1" = "--build-only" ] && exit 0
if [ "$1" = "replay" ]; then exec "$here/sim/target/release/sim" "$@"; fi
exec "$here/sim/target/release/sim" check "$@" --root "$here"
