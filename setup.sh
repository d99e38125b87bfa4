#!/bin/bash
# Nothing to build ahead: the checks import /repo's working tree, and those that
# need the native data pipeline compile it from /repo when they run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
. /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
PYTHONPATH=lib $PY -c 'import boot; boot._paths(); import hypothesis, torch; print("hypothesis", hypothesis.__version__, "torch", torch.__version__)'
