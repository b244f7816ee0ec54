#!/bin/bash
# Nothing is compiled: checks run the Python sources of /repo directly. Only verify the environment.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PYTHONPATH=/repo/src:$PWD
/opt/venv/bin/python -c "import hypothesis, ics, ics_vtimezones, harness.core; print('ok', hypothesis.__version__, ics.__file__)"
