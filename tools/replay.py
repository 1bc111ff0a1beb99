#!/usr/bin/env python3
"""replay.py <replay file>: run recorded commands against the current tree and judge them again."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import *
import plans

r = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, "build"))
try:
    ok, text = compile_driver(r["driver"], os.path.join(w, "driver"))
    if not ok:
        sys.exit(text)
    bad, err = plans.judge_script(os.path.join(w, "driver"), r["commands"], os.path.join(w, "r"), r["spec"])
    print(bad or err or "no violation")
    sys.exit(1 if bad else 3 if err else 0)
finally:
    shutil.rmtree(w)
