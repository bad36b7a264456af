#!/bin/sh
# Offline: build the simulation drivers from /repo's working tree (checks rebuild by content hash when the tree differs).
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "
from dst import msim
msim.prepare('plain', 'big', 'aux', 'auxbig', 'rt', 'auxrt')
print('drivers built')"
