#!/bin/bash
# builds the vx engine into /verif/build/vx (offline: LLVM 18, the Z3 shipped with the python tooling venv, GSL)
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=llvm-config-18
newer() { [ ! -e "$1" ] || [ -n "$(find . -newer "$1" -name '*.[chi]*' -print -quit)" ]; }
if newer $B/vx; then
  FL="-std=c++17 -O2 -w -I$Z/include $($LC --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -frtti -ffp-contract=off"
  g++ $FL -c expr.cpp -o $B/expr.o & g++ $FL -c solver.cpp -o $B/solver.o & g++ $FL -c vx.cpp -o $B/vx.o & wait
  g++ $B/expr.o $B/solver.o $B/vx.o -o $B/vx.tmp $($LC --ldflags --libs core irreader passes support demangle) -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lgsl -lgslcblas
  mv $B/vx.tmp $B/vx
fi
