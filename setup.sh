#!/bin/bash
# nothing to build: the checks are Python and import the code from /repo; this only verifies that the interpreter is usable
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import lxml, pandas, fs; print("ok")'
