#!/bin/bash
# builds the engine: build.sh OUT
exec g++ -std=c++20 -O2 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE "$(dirname "$0")/vcx.cpp" -o "$1" /usr/lib/llvm-18/lib/libLLVM-18.so -lz3
