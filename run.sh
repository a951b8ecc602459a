#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE] [--tier quick|thorough]
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONUNBUFFERED=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
MPLCONFIGDIR=$(mktemp -d /tmp/pymcsim-mpl.XXXXXX)
export MPLCONFIGDIR
trap 'case "$MPLCONFIGDIR" in /tmp/pymcsim-mpl.*) rm -rf -- "$MPLCONFIGDIR";; esac' EXIT
"$PY" check.py "$@"
exit $?
