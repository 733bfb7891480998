#!/bin/bash
# Builds demo.cpp against the library that build.sh made, and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
g++ -std=c++14 -O1 -w -DMPC_WALKGEN_API_H '-DMPC_WALKGEN_API=__attribute__((visibility("default")))' \
  -I. -Iqpsolver -I/usr/include/eigen3 "$HERE/demo.cpp" _build/libmpc-walkgen.a -o "$OUT/demo"
timeout 120 "$OUT/demo"
