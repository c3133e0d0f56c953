#!/opt/venv/bin/python
"""Nothing is built: confirm the interpreter, the solvers and the code under test are there."""
import sys

sys.dont_write_bytecode = True
from symx import core, harness  # noqa: F401
import cvc5  # noqa: F401
import geocat.comp as gc

s = core.z3.Solver()
x = core.z3.Real('x')
s.add(x * x < 0)
assert s.check() == core.z3.unsat
assert gc.__file__.startswith('/repo/'), gc.__file__
print('setup ok', core.z3.get_version_string(), gc.__file__)
