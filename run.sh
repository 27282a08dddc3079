#!/bin/bash
# run.sh <property> [options]: run one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export PYTHONPATH="${VERIF_REPO:-/repo}/src" LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONOPTIMIZE PYTHONWARNINGS SSH_ASKPASS
exec /opt/venv/bin/python -c 'import sys; from mon.core import main; sys.exit(main(sys.argv[1:]))' "$@"
