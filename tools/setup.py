#!/usr/bin/env python3
"""Nothing is shared between runs: checks that the tools the checks need are present, and that the files compile as Python."""
import os, py_compile, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++", "cmake", "ninja"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
for f in ("vlib.py", "check.py", "specs.py"):
    compile(open(os.path.join(V, "tools", f)).read(), f, "exec")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
