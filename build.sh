#!/bin/bash
# usage: build.sh REPO BUILDDIR [py] -- builds libdlite (ASan, allocation seam) and the simulator;
# with py: libdlite with Python and the simulator with an embedded interpreter
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(realpath "$1"); B=$(realpath -m "$2"); mkdir -p "$B"
CC_FLAGS="-fsanitize=address -fno-omit-frame-pointer -g1 -O1 -w -include $HERE/dsim/alloc_seam.h"
J=$(nproc)
if [ "${3:-}" = py ]; then
  PY=/opt/dlite-venv/bin/python3
  if [ ! -f "$B/pylib/build.ninja" ]; then
    cmake -S "$REPO" -B "$B/pylib" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPython3_EXECUTABLE=$PY -DSWIG_USE_SWIG_DEPENDENCIES=TRUE \
      -DWITH_PYTHON=ON -DWITH_HDF5=OFF -DWITH_REDLAND=OFF -DWITH_FORTRAN=OFF -DWITH_EXAMPLES=OFF -DWITH_DOC=OFF -DBUILD_TESTING=OFF \
      -DCMAKE_C_FLAGS="$CC_FLAGS"
  fi
  ninja -C "$B/pylib" -j "$J"
  PYINC=$($PY -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
  PYLIB=$($PY -c 'import sysconfig; print("-L%s -lpython%s" % (sysconfig.get_config_var("LIBDIR"), sysconfig.get_config_var("LDVERSION")))')
  mkdir -p "$B/pyobj"
  {
    echo "rule cc"; echo "  command = g++ -std=gnu++17 -fpermissive -w -g1 -O1 -fsanitize=address -fno-omit-frame-pointer -I$HERE/dsim -I$PYINC -MMD -MF \$out.d -c \$in -o \$out"; echo "  depfile = \$out.d"
    echo "rule link"; echo "  command = g++ -fsanitize=address -rdynamic \$in -o \$out -L$B/pylib/src -L$B/pylib/src/utils -ldlite -ldlite-utils $PYLIB -lpthread -ldl -Wl,-rpath,$B/pylib/src:$B/pylib/src/utils"
    objs=""
    for f in "$HERE"/dsim/core.cc "$HERE"/dsim/seam.cc "$HERE"/dsim/py/*.cc; do
      n=$(basename "$f" .cc); echo "build $B/pyobj/$n.o: cc $f"; objs="$objs $B/pyobj/$n.o"
    done
    echo "build $B/dsimpy: link $objs | $B/pylib/src/libdlite.so $B/pylib/src/utils/libdlite-utils.so"
  } > "$B/pyobj/build.ninja.new"
  cmp -s "$B/pyobj/build.ninja.new" "$B/pyobj/build.ninja" || mv "$B/pyobj/build.ninja.new" "$B/pyobj/build.ninja"
  ninja -f "$B/pyobj/build.ninja" -j "$J"
  exit 0
fi
if [ ! -f "$B/lib/build.ninja" ]; then
  cmake -S "$REPO" -B "$B/lib" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DWITH_PYTHON=OFF -DWITH_HDF5=ON -DWITH_REDLAND=ON \
    -DWITH_FORTRAN=OFF -DWITH_EXAMPLES=OFF -DWITH_DOC=OFF -DBUILD_TESTING=OFF -DCMAKE_C_FLAGS="$CC_FLAGS"
fi
ninja -C "$B/lib" -j "$J"
INC="-I$REPO/src -I$B/lib/src -I$REPO/src/utils -I$B/lib/src/utils -I/usr/include/raptor2 -I/usr/include/rasqal"
CXX_FLAGS="-std=gnu++17 -fpermissive -w -g1 -O1 -fsanitize=address -fno-omit-frame-pointer -I$HERE/dsim $INC"
mkdir -p "$B/obj" "$B/plugins" "$B/mplugins"
rule() {
  echo "cxx = g++"; echo "inc = $INC"; echo "flags = $CXX_FLAGS"
  echo "rule cc"; echo "  command = \$cxx \$flags -MMD -MF \$out.d -c \$in -o \$out"; echo "  depfile = \$out.d"
  echo "rule c"; echo "  command = gcc $CC_FLAGS -I$HERE/dsim/builtin \$inc -MMD -MF \$out.d -c \$in -o \$out"; echo "  depfile = \$out.d"
  echo "rule link"; echo "  command = \$cxx -fsanitize=address -rdynamic \$in -o \$out -L$B/lib/src -L$B/lib/src/utils -ldlite -ldlite-utils -lpthread -ldl -Wl,-rpath,$B/lib/src:$B/lib/src/utils"
  local objs=""
  for f in "$HERE"/dsim/*.cc; do
    n=$(basename "$f" .cc); echo "build $B/obj/$n.o: cc $f"; objs="$objs $B/obj/$n.o"
  done
  echo "build $B/obj/builtin_ts.o: c $HERE/dsim/builtin/builtin_ts.c"; objs="$objs $B/obj/builtin_ts.o"
  echo "rule so"; echo "  command = gcc $CC_FLAGS \$inc -shared -fPIC -MMD -MF \$out.d -o \$out \$in"; echo "  depfile = \$out.d"
  for f in "$HERE"/dsim/plugins/*.c; do echo "build $B/plugins/$(basename "$f" .c).so: so $f"; done
  for f in "$HERE"/dsim/mplugins/*.c; do echo "build $B/mplugins/$(basename "$f" .c).so: so $f"; done
  echo "build $B/dsim: link $objs | $B/lib/src/libdlite.so $B/lib/src/utils/libdlite-utils.so"
}
rule > "$B/obj/build.ninja.new"
cmp -s "$B/obj/build.ninja.new" "$B/obj/build.ninja" || mv "$B/obj/build.ninja.new" "$B/obj/build.ninja"
ninja -f "$B/obj/build.ninja" -j "$J"
