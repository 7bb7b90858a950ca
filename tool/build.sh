#!/bin/bash
# Builds the extractor (offline; clang 18 development headers and shared libraries of this sandbox).
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
H=$(sha256sum "$D/mmlx.cpp" | cut -c1-16)
[ -x "$B/mmlx-$H" ] && { echo "$B/mmlx-$H"; exit 0; }
T=$B/mmlx-$H.$$
clang++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$D/mmlx.cpp" -o "$T" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.1 >&2
mv -f "$T" "$B/mmlx-$H"
echo "$B/mmlx-$H"
