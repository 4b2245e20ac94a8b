#!/bin/bash
# usage: check.sh <PROPERTY-ID> [quick|thorough] [--replay FILE]
# Runs the runtime monitor of one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 TQDM_DISABLE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 AWS_EC2_METADATA_DISABLED=true
export VERIF_ROOT="$PWD"
export REPO_ROOT="${REPO_ROOT:-/repo}"
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m vlib.run "$@"
