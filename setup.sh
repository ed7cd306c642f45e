#!/bin/bash
# builds the extractor and the linear-arithmetic kernel from /verif/tool (offline, ~15 s)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include tool/extract.cpp -o build/extract.tmp \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
g++ -O2 -shared -fPIC -o build/lin.so.tmp tool/lin.cpp
mv build/lin.so.tmp build/lin.so
mv build/extract.tmp build/extract
