#!/bin/sh
# usage: run.sh Cxx [quick|thorough]   or   run.sh --replay FILE
HERE=$(cd "$(dirname "$0")" && pwd)
if [ -n "$2" ] && [ "$1" != "--replay" ]; then VERIF_TIER=$2; fi
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/venv/mplconfig}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$HERE"
exec /opt/venv/bin/python -W ignore -m pbt.run "$@"
