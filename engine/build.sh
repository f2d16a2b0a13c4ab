#!/bin/bash
# builds the engine into $1
set -e
cd "$(dirname "$0")"
out=$1; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ] && [ -z "$SX_OLD_Z3" ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -l:libz3.so"; else ZI=""; ZL="-lz3"; fi
LI="-I$(llvm-config-18 --includedir)"; LL="$(llvm-config-18 --ldflags) -lLLVM-18"
g++ -O2 -std=c++20 -w -c expr.cpp -o $out/expr.o &
g++ -O2 -std=c++20 -w $ZI -c solver.cpp -o $out/solver.o &
g++ -O2 -std=c++20 -w -fno-rtti -D__STDC_LIMIT_MACROS $LI -c sx.cpp -o $out/sx.o &
wait %1; wait %2; wait %3
g++ -O2 $out/sx.o $out/solver.o $out/expr.o -o $out/sx.tmp $LL $ZL
mv $out/sx.tmp $out/sx
