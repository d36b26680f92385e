#!/bin/bash
# usage: plant.sh ID [check tier [opts]] -- try a planted bug in a scratch copy of ${SRC:-/repo} (in /tmp/plant):
# builds, runs its demo with and without the patch and, if asked, one check against it.
set -u
ID=$1; shift
H=$(cd "$(dirname "$0")/.." && pwd); S=$H/seeded/$ID; P=/tmp/plant; mkdir -p $P
. /opt/vp/dlite/env.sh
sync() { rsync -rlp --delete --checksum --exclude=/_build --exclude=/.git ${SRC:-/repo}/ $P/repo/; }
bld() {
  [ -f $P/repo/_build/build.ninja ] || cmake -S $P/repo -B $P/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug \
   -DPython3_EXECUTABLE=/opt/dlite-venv/bin/python3 -DSWIG_USE_SWIG_DEPENDENCIES=TRUE -DWITH_PYTHON=ON -DWITH_HDF5=ON -DWITH_REDLAND=ON \
   -DWITH_FORTRAN=ON -DWITH_EXAMPLES=OFF -DWITH_DOC=OFF >$P/cmake.log 2>&1
  ninja -C $P/repo/_build -j8 >$P/build.log 2>&1 || { echo "BUILD FAILED"; tail -20 $P/build.log; exit 3; }
}
sync; bld
if [ -f $S/demo.sh ]; then (cd $P/repo && bash $S/demo.sh >$P/demo0.log 2>&1); r=$?; echo "demo unpatched: $r"; [ $r = 0 ] || tail -5 $P/demo0.log; fi
(cd $P/repo && git apply --unsafe-paths --directory="" $S/patch.diff 2>$P/apply.log || patch -p1 <$S/patch.diff) || { echo "APPLY FAILED"; cat $P/apply.log; exit 3; }
bld
if [ -f $S/demo.sh ]; then (cd $P/repo && bash $S/demo.sh >$P/demo1.log 2>&1); r=$?; echo "demo patched:   $r"; tail -3 $P/demo1.log; fi
if [ -n "${TESTS:-}" ]; then   # the repository's own tests against the patched copy
  (cd $P/repo && ctest --test-dir _build -j1 --timeout 300 -E '^(ex[1-4]-(mkdir|config|build|test)|minio_storage|dehydrogenation)$' 2>&1) >$P/ctest.log
  grep -E 'Failed|Timeout' $P/ctest.log | grep -vF -f <(sed 's/^/ - /;s/$/ (/' $P/known_failing 2>/dev/null || echo '@@') | head
  grep 'tests passed' $P/ctest.log
fi
if [ -n "${NOCHECK:-}" ]; then sync; exit 0; fi
C=${1:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; T=${2:-quick}; shift; shift || true
DSIM_REPO=$P/repo DSIM_BUILD=$P/check $H/run_check.sh $C $T "$@" 2>&1 | grep -v '^  probes' | cut -c1-300 | tail -12
sync
