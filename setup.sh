#!/bin/bash
# nothing to build: the checks import the sources of /repo as they are
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat /opt/venv/bin/python -c "import py2compat, numpy, netCDF4, dateutil"
