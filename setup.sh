#!/bin/sh
# nothing to build: the machinery is Python and runs on the interpreter of the repository's environment
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -B -c "import sys; assert sys.version_info >= (3, 12); import serial, mc.core, mc.world, mc.explore, mc.ref; print('ok')"
