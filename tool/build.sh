#!/bin/bash
# Builds the bitcode normaliser (out of tree, into $1).
set -e
out="${1:?}"
src="$(dirname "$0")/vpdump.cpp"
if [ -x "$out" ] && [ "$out" -nt "$src" ]; then exit 0; fi
mkdir -p "$(dirname "$out")"
LL=/usr/lib/llvm-18
tmp="$out.$$"
clang++-18 $($LL/bin/llvm-config --cxxflags) -O1 -w "$src" -o "$tmp" \
  $($LL/bin/llvm-config --ldflags) -lLLVM-18 -Wl,-rpath,$LL/lib
mv "$tmp" "$out"
