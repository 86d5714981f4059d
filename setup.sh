#!/bin/bash
# setup_cmd: builds the engine and the runtime model from the committed files
set -e
cd "$(dirname "$0")"; mkdir -p engine/bin
engine/build.sh
clang++-18 -std=c++20 -O1 -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize -fno-slp-vectorize -Wno-everything -emit-llvm -c engine/rt/rt.cpp -o engine/bin/rt.bc
clang-18 -O1 -gline-tables-only -fno-builtin -fno-vectorize -fno-slp-vectorize -Wno-everything -emit-llvm -c engine/rt/rtc.c -o engine/bin/rtc.bc
llvm-link-18 engine/bin/rt.bc engine/bin/rtc.bc -o engine/bin/rt.all.bc && mv engine/bin/rt.all.bc engine/bin/rt.bc
