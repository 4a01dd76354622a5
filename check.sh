#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="${TRUSSPY_REPO:-/repo}/src:$here/harness" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/harness/main.py" "$@"
