#!/bin/bash
# Usage: check.sh <property-id> [run.py options].  Sets a clean, deterministic environment and runs the check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONSTARTUP
exec /opt/venv/bin/python -P "$here/pbt/run.py" "$@"
