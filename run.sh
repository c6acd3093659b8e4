#!/bin/bash
# ./run.sh C01 quick|thorough     decide one property on /repo's working tree
# ./run.sh replay FILE            run one recorded case again
# ./run.sh prove C01 [NAME]       proof obligations only, verbose
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -B -m engine.check "$@"
