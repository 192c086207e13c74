#!/bin/bash
# compile.sh driver.cpp out.bc [extra flags]
src=$1; out=$2; shift 2
exec /usr/bin/clang++ -std=c++17 -O1 -Xclang -disable-llvm-passes -gline-tables-only -emit-llvm -c -w -I"${VF_REPO:-/repo}/include" -isystem /opt/vp/compat -I"$(dirname "$0")" "$src" -o "$out" "$@"
