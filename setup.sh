#!/bin/bash
# Nothing to build: the code under test and the explorer are Python.  Check that
# the interpreter and the code are importable.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -B -W ignore -c "
import sys; sys.path.insert(0, 'mc')
import core, fs
fs.fixture('SD-tight'); fs.fixture('DOS33-tight')
print('ready')"
