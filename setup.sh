#!/bin/bash
# Nothing is compiled: the encoding is rebuilt from /repo's source on every run.  This checks that the tools are there.
cd "$(dirname "$0")"
exec /opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, ".")
import numpy, joblib
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from symex import harness
print("numpy", numpy.__version__, "z3", z3.get_version_string())
P
