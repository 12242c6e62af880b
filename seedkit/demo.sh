#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD:$D"
exec timeout 250 /opt/venv/bin/python "$D/demo.py"
