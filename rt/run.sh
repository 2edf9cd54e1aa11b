#!/bin/bash
# runs a bounded check with the real code's interpreter
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/main.py" "$@"
