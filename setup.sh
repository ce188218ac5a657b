#!/bin/bash
# Pure Python framework: nothing to compile. Confirms the interpreter and libraries the checks need.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=$(mktemp -d) "$PY" -c 'import numpy, scipy, matplotlib, yaml; print("ok")'
