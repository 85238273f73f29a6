#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/engine}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
L=/usr/lib/llvm-18
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here"/build.sh | sha256sum | cut -d' ' -f1)
if [ -x "$out/symx" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
for f in expr solver; do
  g++ -std=c++20 -O2 -I$Z/include -c "$here/$f.cpp" -o "$out/$f.o" &
done
g++ -std=c++20 -O2 -fno-rtti -I$L/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$here/exec.cpp" -o "$out/exec.o" &
wait %1; wait %2; wait %3
g++ "$out"/{expr,solver,exec}.o -o "$out/symx.tmp" -L$L/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,$L/lib -lpthread
mv "$out/symx.tmp" "$out/symx"
echo "$stamp" > "$out/stamp"
