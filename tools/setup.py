#!/usr/bin/env python3
"""Builds every harness once (object cache under /verif/build); checks rebuild what changed."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); os.chdir(V)
from checks import CHECKS
bad = 0
for p in CHECKS:
    r = subprocess.run([sys.executable, "run.py", p, "--build-only"])
    if r.returncode: print("build failed for", p); bad = 1
sys.exit(bad)
