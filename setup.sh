#!/bin/sh
# Nothing to build: check that the interpreter and the package under test are there.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && mkdir -p evidence && exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from sim import runner
runner.boot()
print('ok')"
