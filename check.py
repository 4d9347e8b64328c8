#!/opt/venv/bin/python
"""check.py <property id>: decide one property on the current tree of /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vf  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(vf.main(pid, mod.run))
