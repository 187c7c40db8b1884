#!/bin/bash
# Nothing is built ahead of time: every check re-encodes /repo's source.  This only
# confirms that the interpreter, the solvers and the engine work.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence
/opt/venv/bin/python - <<'P' || exit 1
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
from symkj import terms as tm
from symkj.solver import Solver
s = Solver()
s.close()
print('engine loads')
P
echo '(assert false)(check-sat)' | z3-new -in | grep -qx unsat || exit 1
printf '(set-logic ALL)(assert false)(check-sat)' | cvc5 --lang smt2 - | grep -qx unsat || exit 1
echo ready
