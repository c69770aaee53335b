#!/bin/bash
# Builds the harness from the /repo of the moment in a scratch directory and plays the scenario of demo.py.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/h" "$scratch/h" || exit 1
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$scratch/target}
(cd "$scratch/h" && cargo build --offline >"$scratch/log" 2>&1) || { tail -20 "$scratch/log"; exit 1; }
DEMO_BIN=$CARGO_TARGET_DIR/debug/dbc-harness PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
