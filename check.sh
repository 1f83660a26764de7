#!/bin/bash
# check.sh PROPERTY TIER | check.sh --replay FILE ...
# Environment of every simulated check; sources are taken from /repo.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONHASHSEED="${DST_HASHSEED:-0}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset PYTHONPATH LD_PRELOAD
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/home" "$WORK/cwd" "$WORK/tmp"
export HOME="$WORK/home" TMPDIR="$WORK/tmp" MPLCONFIGDIR="$WORK/home"
TREE=$(/opt/venv/bin/python "$HERE/dst/build.py") || { echo "build failed"; exit 2; }
export DST_TREE="$TREE" PYTHONPATH="$TREE" DST_VERIF="$HERE"
cd "$WORK/cwd" || exit 2
/opt/venv/bin/python "$HERE/dst/run.py" "$@"
