#!/bin/bash
# nothing to compile: check that the library imports from /repo and the runner loads
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
mkdir -p evidence replays
exec /opt/venv/bin/python -c 'import simpeg, vp.core; print("simpeg from", simpeg.__file__)'
