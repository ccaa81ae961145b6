#!/bin/bash
# Everything is Python and committed; setup only makes sure the interpreter and the packages are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
"${VERIF_PYTHON:-/opt/venv/bin/python}" - <<'PY'
import sys
sys.path.insert(0, 'ref')
import numpy, openmdao, dymos
import vlib.core
print('ready: openmdao', openmdao.__version__, 'dymos', dymos.__version__)
PY
