#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-O2 -std=c++17 -I/usr/lib/llvm-18/include -I$Z/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-everything"
for f in expr solver realabs exec; do
	if [ ! -f "$O/$f.o" ] || [ "$D/$f.cpp" -nt "$O/$f.o" ] || [ "$D/expr.hpp" -nt "$O/$f.o" ] || [ "$D/solver.hpp" -nt "$O/$f.o" ]; then
		clang++ $F -c "$D/$f.cpp" -o "$O/$f.o" & fi
done
for j in $(jobs -p); do wait $j; done
clang++ "$O/expr.o" "$O/solver.o" "$O/realabs.o" "$O/exec.o" -o "$O/symex.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lpthread
mv "$O/symex.tmp" "$O/symex"
