#!/bin/bash
# Nothing to compile: checks import /repo's working tree directly. Verify the toolchain and the framework.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -B -c "import numpy, scipy, sympy; print('numpy', numpy.__version__)" || exit 1
"$PY" -B mc/selftest.py
