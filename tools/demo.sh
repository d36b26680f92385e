#!/bin/bash
# Builds demo.c against the library in ./_build and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
gcc -g -w -I"$R/src" -I"$B/src" -I"$R/src/utils" -I"$B/src/utils" "$D/demo.c" -o "$T/demo" -rdynamic \
  -L"$B/src" -L"$B/src/utils" -ldlite -ldlite-utils -lpthread -ldl -lm -Wl,-rpath,"$B/src:$B/src/utils:$B/src/pyembed" || exit 1
cd "$T" || exit 1
export DLITE_USE_BUILD_ROOT=YES
timeout 120 ./demo
