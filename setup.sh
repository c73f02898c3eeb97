#!/bin/bash
# Nothing to build: the monitors are Python modules that import the library from
# /repo/src. This only tells whether the tools they need are there.
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore -B -c "import numpy, scipy, numba, sympy, networkx, awkward, sigmaepsilon.math" || exit 1
mkdir -p evidence replays
echo ok
