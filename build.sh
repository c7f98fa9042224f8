#!/bin/bash
# Builds the simulator and the three programs of /repo (as shared objects).
# usage: build.sh [outdir]     Everything is incremental (ninja).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${KM_REPO:-/repo}
OUT=${1:-$HERE/_build}
mkdir -p "$OUT"
python3 "$HERE/tools/gen_ninja.py" "$REPO" "$HERE" "$OUT"
ninja -C "$OUT" -j "${KM_JOBS:-8}" ${KM_VERBOSE:+-v} > "$OUT/build.log" 2>&1 || { cat "$OUT/build.log"; exit 3; }
