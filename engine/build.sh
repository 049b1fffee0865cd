#!/bin/bash
# builds $1/llsym (default /verif/build/llsym) from this directory
set -e
cd "$(dirname "$0")"; out=${1:-../build}; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
for f in expr solver exec handlers main; do
  ( [ "$out/$f.o" -nt $f.cpp -a "$out/$f.o" -nt exec.hpp -a "$out/$f.o" -nt expr.hpp ] || g++ -O2 -w -std=c++17 -I$Z/include -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -c $f.cpp -o "$out/$f.o" ) &
done
for j in $(jobs -p); do wait $j; done
g++ -o "$out/llsym.tmp" "$out"/{expr,solver,exec,handlers,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp
mv "$out/llsym.tmp" "$out/llsym"
