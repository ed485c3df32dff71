#!/bin/bash
# Builds the simulation build of the current /repo tree (checks rebuild it themselves if the tree changed).
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -S -B -c "
import sys; sys.path.insert(0,'.')
from simlib import build
print(build.build())"
