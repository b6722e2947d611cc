#!/bin/bash
# check.sh <property id> [args]: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
unset PYTHONPATH
PY=/opt/venv/bin/python
exec "$PY" -B vmon/run.py "$@"
