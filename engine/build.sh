#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
Z3L=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib; Z3NEW=-lz3; if [ -e $Z3L/libz3.so ]; then Z3NEW="$Z3L/libz3.so -Wl,-rpath,$Z3L"; fi # newer solver if present
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build/engine}; mkdir -p "$out"
LL=$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//')
pids=()
for f in expr solver mem exec canon; do g++ -std=c++17 -O2 -w -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!); done
g++ $LL -std=c++17 -O1 -w -c "$here/decode.cpp" -o "$out/decode.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ -o "$out/sxe.tmp" "$out"/{expr,solver,mem,exec,canon,decode}.o -L/usr/lib/llvm-18/lib -lLLVM-18 $Z3NEW -lpthread
mv "$out/sxe.tmp" "$out/sxe"
