#!/bin/sh
# build.sh OUT : compile the engine
cd "$(dirname "$0")" || exit 2
exec g++ -O2 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions -fno-rtti -Wall -Wno-unused symx.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
