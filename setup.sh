#!/bin/bash
# nothing to build: the checks import /repo's working tree directly. Fails early if the interpreter is not usable.
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import quacklab, pglast, networkx, pandas, numpy; print('ok')"
