#!/bin/sh
# Nothing to build ahead of time: each check builds the monitor from /repo itself.
set -e
python3-vt -c 'import hypothesis'
gcc --version >/dev/null
/opt/venv/bin/python3 -c 'import sys'
mkdir -p evidence
