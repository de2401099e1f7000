#!/bin/sh
# builds the AST extractor (clang libtooling) into build/
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
if [ -x build/wpextract ] && [ build/wpextract -nt extractor/extract.cpp ]; then exit 0; fi
t=build/wpextract.$$
/usr/bin/clang++ -fno-rtti -O1 -std=c++17 -I/usr/lib/llvm-18/include extractor/extract.cpp -o $t \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so || exit 1
mv $t build/wpextract
