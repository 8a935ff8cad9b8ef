#!/bin/sh
# run.sh check ID [tier] | replay FILE | one ID INDEX | selftest
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -B -m dst.main "$@"
