"""Checks that what the checks need is present (nothing has to be built)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import runner  # noqa: E402

runner.setup_env()
import jax, mpmath, z3  # noqa: E402,E401
import smolgp  # noqa: E402

s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
os.makedirs(os.path.join(runner.VERIF, "evidence"), exist_ok=True)
print("ok", jax.__version__, z3.get_version_string(), os.path.dirname(smolgp.__file__))
