#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decides one property on the current tree of /repo."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":   # the same order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, here + "/khv")
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import checklib
if __name__ == "__main__":
    prop = sys.argv[1]
    m = importlib.import_module(f"checks.{prop.lower()}")
    sys.exit(checklib.main(prop, m.run, sys.argv[2:]))
