#!/bin/bash
# Nothing to compile: check that the interpreter, the libraries and the code under test import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
if [ -d /opt/pyrayt/mplconfig ]; then export MPLCONFIGDIR=/opt/pyrayt/mplconfig; fi
exec /opt/venv/bin/python -W ignore -c "from sim import core, world, ref, runner; core.bootstrap(); world.classes(); print('simulator ready on', core.REPO)"
