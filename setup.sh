#!/bin/bash
# builds the framework (engine, environment model, native replay runtime) into /verif/build; idempotent
set -e
cd "$(dirname "$0")"
bash engine/build.sh
B=build
up() { [ ! -e "$1" ] || [ -n "$(find rt -name '*.h' -newer "$1")" ] || [ "$2" -nt "$1" ]; }
if up $B/model.bc rt/model.cpp; then clang++ -std=c++17 -O1 -Xclang -disable-llvm-passes -gline-tables-only -w -Irt -emit-llvm -c rt/model.cpp -o $B/model.tmp && mv $B/model.tmp $B/model.bc; fi
if up $B/engine_rt.bc rt/engine_rt.cpp; then clang++ -std=c++17 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -w -Irt -emit-llvm -c rt/engine_rt.cpp -o $B/engine_rt.tmp && mv $B/engine_rt.tmp $B/engine_rt.bc; fi
if up $B/native_rt.o rt/native_rt.cpp; then clang++ -std=c++17 -O1 -g -w -Irt -c rt/native_rt.cpp -o $B/native_rt.tmp && mv $B/native_rt.tmp $B/native_rt.o; fi
