#!/bin/bash
# Nothing to build: checks import /repo's working tree directly.  Verify the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
/opt/veriftools/pyvenv/bin/python -c "import hypothesis, jsonschema; print('generator: Hypothesis', hypothesis.__version__)"
/opt/venv/bin/python -c "import numpy, pandas, lark, libcst; print('SUT interpreter ok')"
