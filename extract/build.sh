#!/bin/bash
# Builds the typed-AST extractor. usage: build.sh OUTDIR
set -e
out=${1:?}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
L=/usr/lib/llvm-18
CXX=/usr/bin/g++
tmp=$(mktemp "$out/.extract.XXXXXX")
$CXX -std=c++17 -O1 -fno-rtti -w -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   "$here/extract.cpp" -o "$tmp" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
chmod 755 "$tmp"
mv "$tmp" "$out/extract"
