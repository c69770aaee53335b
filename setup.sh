#!/bin/bash
# Builds the harness (which links the real program from /repo) and checks the specification's types.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! (cd harness && cargo build --offline >"$log" 2>&1); then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "setup: the harness does not build" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
for f in check; do quint typecheck spec/$f.qnt || exit 2; done
