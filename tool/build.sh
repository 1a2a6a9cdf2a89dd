#!/bin/bash
# Builds the extractor into $1 (default: /verif/.build/extract).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/extract}
mkdir -p "$(dirname "$out")"
g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$out.tmp.$$" -l:libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
