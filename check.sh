#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [extra args]
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
exec /opt/venv/bin/python -m vp.run "$id" --tier "$tier" "$@"
