#!/usr/bin/env python3
"""Checks that the tools the checks need are here and precompiles the runner."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++", "python3"):
    subprocess.check_call([t, "--version"], stdout=subprocess.DEVNULL)
os.makedirs(V + "/build", exist_ok=True)
sys.path.insert(0, V)
import run
o, e = run.compile_one(V + "/lib/pbt.cpp", "")
print(e if o is None else "ok")
sys.exit(0 if o else 1)
