#!/bin/sh
# Nothing to build: the checks read /repo and run on the installed interpreter and z3. Check that these are there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "from engine import env; env.setup(); import z3; print('z3', z3.get_version_string())"
