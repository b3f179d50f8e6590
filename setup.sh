#!/bin/bash
# Nothing to compile: the monitors import the code from /repo's working tree at run time.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import numpy, scipy, jax, basix, feax; print('ok')"
