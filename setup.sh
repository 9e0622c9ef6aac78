#!/bin/bash
# builds the symbolic executor and the library runtime into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18
src=$(cat engine/*.hpp engine/*.cpp engine/*.inc rt/rt.cpp shim/std/bits/*.h setup.sh | sha256sum | cut -c1-16)
if [ -f build/stamp ] && [ "$(cat build/stamp)" = "$src" ] && [ -x build/hx ] && [ -f build/rt.ll ]; then exit 0; fi
t=$(mktemp -d build/tmp.XXXXXX)
clang++ -std=c++17 -O2 -fno-rtti -fexceptions -I$L/include engine/exec.cpp -o $t/hx -L$L/lib -lLLVM-18 -lgmpxx -lgmp &
clang++ -std=c++20 -S -emit-llvm -O1 -U__OPTIMIZE__ -Xclang -disable-llvm-passes -fno-builtin -gline-tables-only -D__NO_CTYPE -Ishim/std rt/rt.cpp -o $t/rt.ll &
wait -n; wait -n
mv $t/hx build/hx; mv $t/rt.ll build/rt.ll
rm -rf "$PWD/$t"
echo $src > build/stamp
