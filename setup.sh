#!/bin/bash
# Builds the fact extractor (offline; clang 18 development headers and shared libraries are part of the sandbox).
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/factgen ] || [ factgen/factgen.cpp -nt build/factgen ]; then
  L=/usr/lib/llvm-18/lib
  clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include factgen/factgen.cpp \
    -o build/factgen.tmp $L/libclang-cpp.so.18.1 $L/libLLVM.so.18.1 -Wl,-rpath,$L
  mv build/factgen.tmp build/factgen
fi
