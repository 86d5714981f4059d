#!/bin/bash
# builds the engine and the runtime model into /verif/engine/bin
set -e
cd "$(dirname "$0")"; mkdir -p bin
clang++-18 -O2 -g0 -std=c++20 -fexceptions -frtti -I$(llvm-config-18 --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS nbsym.cpp -o bin/nbsym.tmp -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3
mv bin/nbsym.tmp bin/nbsym
