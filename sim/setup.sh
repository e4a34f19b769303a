#!/bin/bash
# nothing is installed: check that what the simulator needs is there
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
t=$(mktemp -d)
gcc -shared -fPIC -O1 -w -o "$t/shim.so" sim/native/shim.c -ldl
rm -rf "$t"
/opt/venv/bin/python -c "import torch, numpy, scipy, sympy; print('ok')"
