#!/opt/venv/bin/python
"""Replay a counterexample file on the plain (unpatched, non-symbolic) code."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symex import core, runner
runner.setup_path()
d = json.load(open(sys.argv[1]))
h = runner.get_harness(d["property"], d["harness"])
st, msg, used = core.replay(lambda S: h.fn(S, **d["cfg"]), d["inputs"])
print(st, msg or "")
if "__tb__" in used: print(used["__tb__"])
sys.exit(1 if st == "violated" else 0)
