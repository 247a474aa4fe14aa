#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--replay FILE] [-v]
# Runs one check against the working tree of /repo (pure Python: imported directly).
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv-pypy/bin/python -B -W ignore "$here/mc/main.py" "$@"
