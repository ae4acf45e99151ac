#!/bin/bash
# Builds the syntax-tree extractor next to its stamp (a hash of its source); does nothing when it is up to date.
cd "$(dirname "$0")" || exit 3
h=$(sha256sum astx.cpp | cut -c1-64)
if [ -x ../bin/astx ] && [ "$(cat ../bin/astx.stamp 2>/dev/null)" = "$h" ]; then exit 0; fi
mkdir -p ../bin
tmp=$(mktemp -d)
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  astx.cpp -o "$tmp/astx" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.1 -Wl,-rpath,/usr/lib/llvm-18/lib || { rm -r "$tmp"; exit 3; }
strip "$tmp/astx"
mv -f "$tmp/astx" ../bin/astx && echo "$h" > ../bin/astx.stamp
rm -r "$tmp"
