#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and that the specifications parse.  Every check builds
what it needs itself, from /repo's working tree."""
import os, shutil, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("g++", "java", "python3"):
    if not shutil.which(t):
        print("missing tool", t); sys.exit(1)
r = subprocess.run(["g++", "-std=c++17", "-O2", "-c", os.path.join(V, "harness/sim/ksim.cpp"), "-o",
                    os.path.join(V, "build", "ksim-setup.o")])
sys.exit(r.returncode)
