"""setup_cmd: confirms that the tools the checks need are present."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import numpy, pandas, pint, pyam, scipy, z3  # noqa

s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
assert os.path.isfile("/repo/openscm/__init__.py")
print("ok", z3.get_version_string(), numpy.__version__, pandas.__version__, pint.__version__)
