#!/opt/venv/bin/python
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
from symex.runner import main
sys.exit(main())
