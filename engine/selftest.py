#!/usr/bin/env python3-vt
"""setup: nothing to build ahead (checks compile /repo themselves); make sure the tool chain answers."""
import sys, os, subprocess, shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, ir, solve, terms, exec
for t in ('clang++-18','clang++','g++'): print(t, shutil.which(t))
ok=shutil.which('g++') is not None
print('engine imports; ready'); sys.exit(0 if ok else 1)
