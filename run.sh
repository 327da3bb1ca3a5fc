#!/bin/bash
# usage: run.sh Cxx [quick|thorough] [--replay FILE] [--sub NAME]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m mc.run "$@"
