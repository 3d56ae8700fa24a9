#!/bin/bash
# usage: check.sh check C01 | replay FILE | digest C01 N | one C01 I
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore dst/run.py "$@"
