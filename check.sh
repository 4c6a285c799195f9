#!/bin/bash
# bash check.sh PROPERTY [options of sim/driver.py]
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONWARNINGS=ignore GDAL_NUM_THREADS=1 TZ=UTC
exec $PY -W ignore sim/driver.py "$@"
