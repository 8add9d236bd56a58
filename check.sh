#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export CPL_LOG=/dev/null HOME=/root LANG=C.UTF-8 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=/opt/vp/mplconfig PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m dv.check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
