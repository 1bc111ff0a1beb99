#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses.  Drivers are built by each check."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import SPEC, JARS, VERIF

os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        bad = 1
sys.exit(bad)
