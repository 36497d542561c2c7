#!/bin/sh
# Everything is built by the checks themselves; this only shows early that it can be.
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 python3-vt -c 'import sys; sys.path.insert(0, "."); from qv import build; print(build.qlc())'
