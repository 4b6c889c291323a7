#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--only SUB]
# Runs one check against /repo's working tree, in a private scratch directory (fresh HOME,
# fresh numba cache: numba's on-disk cache does not notice changes in other files).
ID=${1:?usage: run.sh ID}; shift
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
WORK=$(mktemp -d "${TMPDIR:-/tmp}/cddmverif.XXXXXX") || exit 2
case "$WORK" in */cddmverif.??????) ;; *) exit 2;; esac
trap 'rm -rf "$WORK"' EXIT
trap 'exit 3' INT TERM
export VERIF_T0=$(date +%s)
export CDDM_REPO=${CDDM_REPO:-/repo}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen LC_ALL=C.UTF-8
export NUMBA_NUM_THREADS=$(getconf _NPROCESSORS_ONLN)
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
export OMP_WAIT_POLICY=passive
for v in $(env | sed -n 's/^\(CDDM_[A-Z_]*\)=.*/\1/p'); do case $v in CDDM_REPO) ;; *) unset "$v";; esac; done
[ -n "$VERIF_DEV_NUMBA_CACHE" ] || export CDDM_NUMBA_CACHE=0   # private cache would not be reused anyway: saves compile time
mkdir -p "$WORK/home" "$WORK/numba" "$WORK/pyc" "$WORK/mpl" "$WORK/deps" "$WORK/cwd" || exit 2
export HOME="$WORK/home" NUMBA_CACHE_DIR="${VERIF_DEV_NUMBA_CACHE:-$WORK/numba}" PYTHONPYCACHEPREFIX="$WORK/pyc" MPLCONFIGDIR="$WORK/mpl" HYPOTHESIS_STORAGE_DIRECTORY="$WORK/hyp"
export VERIF_SCRATCH="$WORK/cwd"
PY=/opt/venv/bin/python
# hypothesis is not in the package's environment: unpack it from the offline wheels
for w in hypothesis-*-cp312-*.whl sortedcontainers-*.whl; do
  f=$(ls /opt/veriftools/wheels/$w 2>/dev/null | sort | tail -1)
  [ -n "$f" ] || { echo "ERROR: wheel $w not found"; exit 2; }
  "$PY" -m zipfile -e "$f" "$WORK/deps" || exit 2
done
export PYTHONPATH="$CDDM_REPO:$HERE:$WORK/deps"
cd "$WORK/cwd" || exit 2
"$PY" -m vlib.supervise "$ID" "$@" &
CHILD=$!
trap 'kill $CHILD 2>/dev/null; wait $CHILD; exit 3' INT TERM
wait $CHILD
rc=$?
cd /
exit $rc
