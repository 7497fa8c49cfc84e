#!/bin/bash
# build.sh [TARGET...]: mirrors /repo's sources to .build/tree and builds the targets (everything without arguments).
set -e -o pipefail
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
B=$V/.build
mkdir -p "$B/tree"
exec 9> "$B/lock"
flock 9
export CC=gcc CXX=g++ LC_ALL=C.UTF-8
# by checksum and without keeping times: what changed gets a new time stamp, the rest keeps its own
rsync -rlpc --delete --exclude=/core/build --exclude=/core/test --exclude='/unity/library/*/bin' \
      --exclude='/unity/library/*/obj' --exclude=/unity/demo "$R/core" "$R/unity" "$B/tree/"
if [ ! -f "$B/out/build.ninja" ]; then
  cmake -S "$V/harness" -B "$B/out" -G Ninja -DTREE="$B/tree" > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log"; exit 3; }
fi
if ! ninja -C "$B/out" "$@" > "$B/ninja.log" 2>&1; then
  grep -E -A5 'error|FAILED' "$B/ninja.log" | head -60
  exit 3
fi
