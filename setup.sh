#!/bin/bash
# Nothing to build (pure Python): checks that the simulator imports the package from /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
MPLCONFIGDIR=$(mktemp -d /tmp/pymcsim-mpl.XXXXXX)
export MPLCONFIGDIR
trap 'case "$MPLCONFIGDIR" in /tmp/pymcsim-mpl.*) rm -rf -- "$MPLCONFIGDIR";; esac' EXIT
"$PY" -c "
import sys; sys.path.insert(0, '.')
from sim import scen
import pymcmcstat
print('simulator ready,', pymcmcstat.__file__)"
