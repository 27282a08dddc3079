#!/bin/bash
# nothing to compile: make sure the interpreter and the reference are in order
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
mkdir -p evidence
exec /opt/venv/bin/python -m mon.selftest
