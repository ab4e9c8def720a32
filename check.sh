#!/bin/sh
# check.sh <PROPERTY> [args]: runs one check with the repository's own interpreter.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONHASHSEED=0 exec /opt/venv/bin/python -B "$here/check.py" "$@"
