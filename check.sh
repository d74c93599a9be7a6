#!/bin/bash
# check.sh PROPERTY TIER [extra args]   -- run one property check against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 SPGLIB_WARNING=OFF
export PYTHONPATH="$here" PYTHONUNBUFFERED=1
cd "$here" || exit 2
exec /opt/venv/bin/python -m pbt.run "$@"
