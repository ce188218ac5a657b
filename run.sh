#!/bin/bash
# usage: bash run.sh <ID> quick|thorough          run a check
#        bash run.sh replay <replay-file>         re-run one recorded violating case, verbosely
cd "$(dirname "$0")" || exit 2
WORK=$(mktemp -d "${VERIF_SCRATCH:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/tmp" "$WORK/mpl" "$WORK/cache" "$WORK/home"
unset GETDIST_CONFIG TMPSMALL TRAVIS_BUILD_DIR DISPLAY PYTHONSTARTUP
export VREPO="${VREPO:-/repo}"
export PYTHONPATH="$VREPO/python:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg MPLCONFIGDIR="$WORK/mpl" XDG_CACHE_HOME="$WORK/cache" TMPDIR="$WORK/tmp" HOME="$WORK/home"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8 LANG=C.UTF-8
export VMON_WORK="$WORK"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m mon.run "$@"
rc=$?
exit $rc
