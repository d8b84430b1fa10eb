#!/bin/bash
# Nothing to compile: the framework is Python and imports the code under test from /repo/src.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays .mpl
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$PWD/.mpl"
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from mc import core
core.load_finoptions()
import mc.ref, mc.engines, matplotlib.pyplot
print('finoptions imports from', core.SRC)"
