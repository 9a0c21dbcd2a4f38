#!/bin/bash
# check.sh ID [--tier quick|thorough]: runs the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m mc.run "$@"
