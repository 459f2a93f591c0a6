#!/bin/sh
# run.sh PXX quick|thorough : one check, from any directory
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m kkmc.run "$@"
