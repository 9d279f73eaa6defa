#!/bin/bash
# offline sanity check of the tools the checks use; nothing is built
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy
s = z3.Solver(); x = z3.Int('x'); s.add(x > x)
assert s.check() == z3.unsat
P
command -v cvc5 >/dev/null
echo ok
