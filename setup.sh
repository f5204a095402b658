#!/bin/bash
# Nothing has to be built: verifies that the interpreter and the libraries the checks use are there.
cd "$(dirname "${BASH_SOURCE[0]}")" && chmod +x run.sh && mkdir -p evidence &&
  PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c "import numpy, tmv.core; print('ready')"
