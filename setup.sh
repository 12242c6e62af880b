#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree. Verify the pieces are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "
import sys; sys.dont_write_bytecode = True
import pandas, numpy, tables, networkx, sklearn, hmmlearn, yaml
sys.path.insert(0, 'stubs'); import nilm_metadata; print('setup ok')"
