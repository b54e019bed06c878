#!/usr/bin/env python3
"""Build the analyser and the specification crate once (every check rebuilds what is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
e = run.env()
try:
    for config in ("std", "libm"):
        run.prepare(e, config)
except run.CheckError as x:
    print("setup:", x)
    sys.exit(1)
print("ready")
