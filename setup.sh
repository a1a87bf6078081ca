#!/bin/bash
# Nothing needs building: the harness is Python and imports jsons from /repo.
# Only make sure that it does.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from harness import core, gen, util
core.import_jsons()
import attr, zoneinfo
zoneinfo.ZoneInfo('Europe/Amsterdam')
print('ok')"
