#!/bin/bash
# Lays out gen/mm: the mod manager, the integrator and github_helpers with the
# sources of /repo's working tree, compiled against the simulated std.
set -e
cd "$(dirname "$0")/.."
python3 tools/mm.py
