#!/bin/bash
# builds the analyzers into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
L=/usr/lib/llvm-18
for t in vfa eff; do
  if [ ! -x ../build/$t ] || [ -n "$(find . -newer ../build/$t -name '*.*' -type f)" ]; then
    /usr/bin/g++ -std=c++17 -O3 -march=x86-64-v2 -fno-rtti -w -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS $t.cpp -o ../build/$t.tmp.$$ -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
    mv ../build/$t.tmp.$$ ../build/$t
  fi
done
