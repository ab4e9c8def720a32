#!/bin/sh
# Nothing is built ahead: checks import /repo's working tree. This only checks that the interpreter and libraries are there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
cd "$here" && exec /opt/venv/bin/python -B -c "from vlib import core; core.setup_paths(); import hypothesis, pynini; print('ok', hypothesis.__version__)"
