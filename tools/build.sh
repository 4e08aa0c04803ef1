#!/bin/bash
# Build the harness against /repo's current working tree. Everything goes to /verif/target.
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
cd "$here/harness" || exit 2
exec cargo build --offline --locked -q "$@"
