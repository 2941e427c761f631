#!/bin/bash
# check.sh <property> [quick|thorough] [more options]
cd "$(dirname "$0")" || exit 2
PYBIN=${VERIF_PYTHON:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
P=$1; T=${2:-quick}; shift; shift
exec "$PYBIN" -B -m dst.check --property "$P" --tier "$T" "$@"
