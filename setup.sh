#!/bin/bash
# Nothing to compile: check that the interpreter is there and that the harness loads.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; sys.path.insert(0, "."); from mc import core, ref, sym; print("ok", sys.version.split()[0])'
