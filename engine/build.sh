#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/.build/sx).
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../.build/sx}
mkdir -p "$(dirname "$OUT")"
/usr/bin/clang++ -O2 -w -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions "$D/sx.cpp" -o "$OUT.tmp.$$" $(llvm-config-18 --ldflags --libs --link-shared) -lz3
mv "$OUT.tmp.$$" "$OUT"
