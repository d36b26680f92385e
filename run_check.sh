#!/bin/bash
# usage: run_check.sh ID quick|thorough [dsim options]
# Builds the code under test from /repo's working tree and runs the simulator.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ID=${1:?}; TIER=${2:-quick}; shift 2 || shift $#
REPO=${DSIM_REPO:-/repo}
B=${DSIM_BUILD:-$HERE/build}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
case $ID in S13|S14) PYW=py; BIN=dsimpy; LIB=pylib;; *) PYW=; BIN=dsim; LIB=lib;; esac
bash "$HERE/build.sh" "$REPO" "$B" $PYW >"$B/build.log" 2>&1 || { echo "build of the simulator failed:"; tail -30 "$B/build.log"; exit 2; }
flock -u 9
export DLITE_USE_BUILD_ROOT=YES
export DSIM_PYDIR="$HERE/dsim/py" DSIM_PYTHON=/opt/dlite-venv/bin/python3
exec "$B/$BIN" "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --build "$B/$LIB" --verif "$HERE" --repo "$REPO" "$@"
