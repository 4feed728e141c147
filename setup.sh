#!/bin/bash
# nothing to build: check that the interpreter and the library can be used
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
chmod +x check
mkdir -p evidence
PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 "$PY" -W ignore -c 'import aalpy, vmon.core, vmon.ref'
