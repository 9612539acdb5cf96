#!/bin/bash
# usage: check.sh <harness crate> <property id> [driver args]
# Rebuilds the harness from /repo's working tree and runs the seeded search.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
crate=$1; prop=$2; shift 2
if [ -x "$crate/prepare.sh" ]; then
  bash "$crate/prepare.sh" || { echo "CHECK-ERROR property=$prop: prepare failed" >&2; exit 3; }
fi
if ! (cd "$crate" && cargo build --offline --quiet 2>build.log); then
  cat "$crate/build.log" >&2
  echo "CHECK-ERROR property=$prop: harness does not build against /repo" >&2
  exit 3
fi
exec "$crate/target/debug/$crate" check "$prop" "$@"
