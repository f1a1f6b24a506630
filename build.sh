#!/bin/bash
# Builds the simulator and the code under test from /repo's working tree.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
exec cargo build --offline -q -p harness "$@"
