#!/bin/bash
# Nothing to build ahead: every check compiles the extension and runs TLC itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy, Cython"
