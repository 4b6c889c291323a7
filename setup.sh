#!/bin/bash
# Nothing to build: checks unpack what they need themselves. Only verifies the tools are there.
set -e
ls /opt/veriftools/wheels/hypothesis-*-cp312-*.whl /opt/veriftools/wheels/sortedcontainers-*.whl >/dev/null
/opt/venv/bin/python -c "import numpy, numba, scipy, pyfftw"
cd "$(dirname "$0")"
for f in vlib/*.py checks/*.py; do /opt/venv/bin/python -c "import sys; compile(open(sys.argv[1]).read(), sys.argv[1], 'exec')" "$f"; done
echo setup ok
