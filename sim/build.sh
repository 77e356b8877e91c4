#!/bin/bash
# builds the simulator against /repo's current working tree
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
if ! cargo +nightly build --release --offline --locked >build.log 2>&1; then
  cat build.log; echo "simulator build failed"; exit 3
fi
