"""Checks that the interpreter, torch, z3 and /repo's pfrl are importable."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, torch, numpy
from symex import runner
runner.setup_path()
import pfrl
print("z3", z3.get_version_string(), "torch", torch.__version__, "numpy", numpy.__version__, "pfrl", pfrl.__file__)
