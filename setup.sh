#!/bin/sh
# nothing to build: checks the interpreter, the tree under test and the simulator can be loaded
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" exec "$PY" -B -W ignore -c "
import aalpy, importlib, glob, os
from dst import core, runner, about
for p in about.P:
    if not about.P[p].get('na'): importlib.import_module('dst.props.' + p.lower())
print('simulator ready:', len(about.P), 'properties, aalpy from', os.path.dirname(aalpy.__file__))
"
