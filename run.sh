#!/bin/bash
# run.sh check C01 [--tier quick|thorough] | replay FILE | selftest [IDS]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" -m sim.driver "$@"
