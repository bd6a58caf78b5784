#!/bin/bash
# builds the engine into $1 (default: engine/out next to this file)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/out}; mkdir -p "$O"
if [ ! -x "$O/asym" ] || [ -n "$(find "$D" -maxdepth 1 -newer "$O/asym" \( -name '*.cpp' -o -name '*.h' -o -name '*.inc' \) -print -quit)" ]; then
  clang++ -std=c++20 -O2 -w -I/usr/lib/llvm-18/include "$D/engine.cpp" -o "$O/asym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 && mv "$O/asym.tmp" "$O/asym"
fi
