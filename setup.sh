#!/bin/bash
# nothing to build: checks run from source. Verifies that the tools they need are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
python3-vt -c "import z3, cvc5, libcst" 
z3-new --version; z3 --version; cvc5 --version | head -1
/opt/venv/bin/python -c "import pandas, numpy, Cython, textx"
