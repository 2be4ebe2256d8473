#!/bin/bash
# builds /verif/build/vpa (the analyser); incremental per source file
set -e
cd "$(dirname "$0")"
out=../build; mkdir -p $out/obj
CXX="g++ -std=c++17 -O1 -g0 -fno-rtti -fno-exceptions -I/usr/lib/llvm-20/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
pids=()
for f in *.cpp; do
  o=$out/obj/${f%.cpp}.o
  if [ ! -f $o ] || [ $f -nt $o ] || [ core.h -nt $o ] || [ walker.h -nt $o ] || [ heap.h -nt $o ]; then
    X="${CXX/-fno-exceptions/}"
    $X -c $f -o $o & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
if [ ! -f $out/vpa ] || [ -n "$(find $out/obj -name '*.o' -newer $out/vpa)" ]; then
  g++ $out/obj/*.o -L/usr/lib/llvm-20/lib -lLLVM-20 -o $out/vpa.tmp && mv $out/vpa.tmp $out/vpa
fi
