#!/bin/bash
# run_check.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLCONFIGDIR=${TMPDIR:-/tmp}/mc_mpl
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -W ignore -c 'import sys; sys.path.insert(0, "."); from mc import core; sys.exit(core.main(sys.argv[1:]))' "$@"
