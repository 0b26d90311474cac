#!/bin/sh
# Nothing to build: pure Python. Fails early if the interpreter cannot load the tool.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo "$PY" -c "import palworld_save_tools.gvas"
