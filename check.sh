#!/bin/bash
# usage: check.sh <property id> [--replay FILE]     (VERIF_SEED, VERIF_TIER from the environment)
# Runs one monitor against the working tree of /repo (imported from source, no stale bytecode).
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export VERIF_REPO=${VERIF_REPO:-/repo}
D=$(mktemp -d /tmp/vfcheck.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/pyc" "$D/tmp"
export PYTHONPYCACHEPREFIX="$D/pyc" VF_SCRATCH="$D/tmp" JOBLIB_TEMP_FOLDER="$D/tmp"
cd "$HERE"
/opt/venv/bin/python -m vf.main "$@" 2>"$D/stderr"
RC=$?
if [ $RC -ne 0 ]; then tail -n 40 "$D/stderr"; fi
exit $RC
