#!/bin/bash
# usage: run.sh <property> [quick|thorough]   |   run.sh replay <file>
# Runs one check against the code in /repo's working tree (imported in place, nothing is cached).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONUTF8=1 PYTHONPATH=/repo
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
unset PYTHONWARNINGS
exec /opt/venv/bin/python -W ignore -m mc.core "$@"
