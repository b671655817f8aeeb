#!/bin/sh
# usage: check.sh PROPERTY quick|thorough [extra args]
# Runs the explicit-state exploration of one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
$PY -c 'import numpy, scipy.linalg' 2>/dev/null || PY=/opt/pypyvenv/bin/python
P=$1; T=${2:-quick}; shift 2
exec $PY -m mc.run --property "$P" --tier "$T" "$@"
