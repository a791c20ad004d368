#!/bin/sh
# run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec "$PY" -B check.py "$@"
