#!/bin/bash
# builds demo.F90 against the library /opt/vp/build.sh left in _build and runs it
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build; T=$(mktemp -d)
gfortran-11 -cpp -ffree-line-length-none -I$B/src/libfazang.so.p -I$B/lib/sundials-6.1.1/libsundials.a.p -J$T -o $T/demo $D/demo.F90 \
  -L$B/src -lfazang -Wl,-rpath,$B/src || exit 3
timeout 100 $T/demo
