#!/bin/bash
# Runs one check against /repo's working tree: run.sh CNN [--tier T] [--seed N]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" check.py "$@"
