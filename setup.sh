#!/bin/sh
# Nothing is compiled: the checks import /repo's Python sources directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
for PY in /opt/venv/bin/python /opt/pypyvenv/bin/python; do
  if PYTHONDONTWRITEBYTECODE=1 $PY -c 'from mc import env, registry'; then exit 0; fi
done
exit 1
