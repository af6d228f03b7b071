#!/bin/bash
# Nothing is built: the checks import qiskit-ignis straight from /repo's working tree.
# Fail early if the interpreter or hypothesis is not usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'PY' 2>/dev/null
import sys
sys.path.insert(0, 'lib')
import harness
harness.bootstrap()
import hypothesis, qiskit.ignis
print('hypothesis', hypothesis.__version__, 'ignis from', qiskit.ignis.__file__)
PY
