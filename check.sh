#!/bin/bash
# usage: check.sh PROP [tier]
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m vf.run "$1" --tier "${2:-quick}" "${@:3}"
