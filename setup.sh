#!/bin/sh
# nothing to build ahead: every check rebuilds what it needs from /repo
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -c "import z3, cvc5"
command -v clang++ >/dev/null
command -v g++ >/dev/null
/opt/veriftools/pyvenv/bin/python -m compileall -q dv check.py
