#!/bin/bash
# run.sh <PROPERTY> [options]: one check, in the repository's own Python environment
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu BILBY_ALLOW_PARAMETERS_AS_STATE=FALSE OMP_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore check.py "$@"
