#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   or   run.sh replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset FLEE_TYPE_CHECK
export PYTHONPATH="${FLEE_REPO:-/repo}"
exec /opt/venv/bin/python "$here/harness/common.py" "$@"
