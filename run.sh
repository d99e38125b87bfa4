#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE] [--arm NAME]
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
export PYTHONPATH="$here/lib${PYTHONPATH:+:$PYTHONPATH}" OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
id=$1; shift
exec "$PY" "$here/checks/$id.py" "$@"
