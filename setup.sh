#!/bin/sh
# Nothing to build: the checks are Python and import pyown from /repo. This only verifies the interpreter.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence out
exec "$PY" -c "import sys; assert sys.version_info >= (3, 11); import mc.core, mc.explore, mc.vloop; print('ok')"
