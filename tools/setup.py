#!/usr/bin/env python3
"""Sanity check of the toolchain; every check compiles what it needs itself."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, ".out"), exist_ok=True)
for t in ("g++", "clang++"):
    if not shutil.which(t):
        sys.exit("missing compiler: " + t)
