#!/bin/bash
# Builds the framework from the committed files (offline).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
for c in sim-*; do
  [ -f "$c/Cargo.toml" ] || continue
  if [ -x "$c/prepare.sh" ]; then bash "$c/prepare.sh"; fi
  (cd "$c" && cargo build --offline --quiet)
done
