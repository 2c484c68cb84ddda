#!/bin/bash
# builds the extractor into $1 (default /verif/build/sgx)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/sgx}"
mkdir -p "$(dirname "$out")"
inc="$(llvm-config-18 --includedir)"
lib="$(llvm-config-18 --libdir)"
tmp="$out.tmp.$$"
clang++ -std=c++17 -O1 -fno-rtti -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I"$inc" "$here/sgx.cpp" -o "$tmp" -L"$lib" -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,"$lib"
mv "$tmp" "$out"
