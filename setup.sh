#!/bin/bash
# The monitors are plain Python and drive /repo's working tree directly, so
# there is nothing to build: confirm that the tools they need are there.
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p "$here/evidence" "$here/replays"
exec "$PY" -c "import sys; assert hasattr(sys, 'monitoring'); import numpy, aacgmv2, pandas; print('ready')"
