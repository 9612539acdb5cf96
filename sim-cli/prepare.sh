#!/bin/bash
# Builds the real command line tool from /repo's working tree, and the OS seam.
set -e
cd "$(dirname "$0")/.."
python3 tools/ws.py
(cd gen/ws && CARGO_TARGET_DIR=../target cargo build --offline --quiet -p unreal_pak_cli 2>../pakcli.log) || { cat gen/pakcli.log >&2; exit 1; }
if [ ! -f gen/fsshim.so ] || [ shim/fsshim.c -nt gen/fsshim.so ]; then
  gcc -O2 -fPIC -shared -o gen/fsshim.so shim/fsshim.c -ldl
fi
