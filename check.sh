#!/bin/sh
# Usage: check.sh <ID> [options of run.py]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && exec /opt/venv/bin/python -B "$here/run.py" "$@"
