#!/bin/bash
# builds the shim and, where the repository's own build is stale, its extensions
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
exec $PY -W ignore sim/build.py
