#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   |   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 HOME=${HOME:-/root}
if [ -d /opt/pyrayt/mplconfig ]; then export MPLCONFIGDIR=/opt/pyrayt/mplconfig; fi
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m sim.runner "$@"
