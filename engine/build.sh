#!/bin/bash
# builds the engine into /verif/build (idempotent)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build}; mkdir -p "$B/obj"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
CF="-std=c++17 -O2 -g1 -fno-rtti $(llvm-config-18 --cppflags) $ZI -w"
pids=()
for f in expr solver memory exec builtins decode main; do
	if [ ! -e $B/obj/$f.o ] || [ -n "$(find $D -maxdepth 1 \( -name '*.h' -o -name $f.cpp \) -newer $B/obj/$f.o)" ]; then
		g++ $CF -c $D/$f.cpp -o $B/obj/$f.o & pids+=($!)
	fi
done
for p in "${pids[@]}"; do wait $p; done
if [ ${#pids[@]} -gt 0 ] || [ ! -e $B/symx ]; then g++ $B/obj/{expr,solver,memory,exec,builtins,decode,main}.o -o $B/symx.tmp $(llvm-config-18 --ldflags --libs) $ZL && mv $B/symx.tmp $B/symx; fi
