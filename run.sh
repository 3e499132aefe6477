#!/bin/bash
# run.sh check PXX [--tier T] | run.sh replay FILE | run.sh setup
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
cmd=$1; shift
exec /opt/venv/bin/python -m tv.$cmd "$@"
