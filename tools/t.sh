#!/bin/sh
cd /verif; PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONPATH=${PYVER_REPO:-/repo} timeout ${T:-600} /opt/venv/bin/python -W ignore /verif/tools/t.py "$@"
