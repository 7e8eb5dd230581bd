#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--case substr] [--replay file] [-v]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH="$here:${VERIF_REPO:-/repo}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
cd "$here" || exit 2
exec "$PY" -m symx.runner "$@"
