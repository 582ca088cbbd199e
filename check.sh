#!/bin/bash
# bash check.sh <PROPERTY> [--only sub,sub | --replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=
exec /opt/veriftools/pyvenv/bin/python -B run.py "$@"
