#!/bin/bash
cd ${VV:-/verif}; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${VV:-/verif}:${VP_REPO:-/repo} MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore tools/fails.py "$@"
