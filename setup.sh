#!/bin/bash
# Nothing is compiled: the machinery is Python and imports the code under test
# from /repo/src at run time.  Check that the interpreter and packages are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out/replays
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import sympy, numpy, jinja2, sys; sys.monitoring; print('ready', sys.version.split()[0], sympy.__version__)"
