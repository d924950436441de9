#!/bin/bash
# Nothing to build: checks import the code from /repo/src and the tools from the preinstalled environment.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3, cvc5, mpmath, geographiclib
print('numpy', numpy.__version__, 'z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
P
