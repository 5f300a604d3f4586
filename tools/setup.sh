#!/bin/sh
# Nothing to install: checks compile what they need from /repo's tree at run time.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, pandas, numba, Cython, patsy, formulaic" 
python3 -m py_compile run.py vlib/*.py checks/*.py
echo ready
