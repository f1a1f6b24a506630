#!/bin/bash
# check.sh <property> [--thorough] [--secs N] [--runs N] [--workers N]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
log=$(mktemp)
if ! ./build.sh 2>"$log"; then
  # The harness does not compile against this tree: decide what the rest of it can decide.
  export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
  if ! python3 tools/prune.py; then
    grep -A12 '^error' "$log" | head -80
    echo "build failed"
    rm -f "$log"
    exit 2
  fi
  rm -f "$log"
  exec ./sim/target/debug/simcheck-pruned check "$@"
fi
rm -f "$log"
exec ./sim/target/debug/simcheck check "$@"
