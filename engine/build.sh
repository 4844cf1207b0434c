#!/bin/bash
# builds the symbolic executor: build.sh OUTPUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
L=/usr/lib/llvm-18
exec g++ -std=gnu++17 -O2 -w -fno-rtti -fexceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I"$Z/include" "$here/symx.cpp" -o "$1" -L$L/lib -lLLVM-18 -L"$Z/lib" -lz3 -Wl,-rpath,"$Z/lib" -Wl,-rpath,$L/lib
