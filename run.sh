#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decide one property for /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" check.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
