#!/usr/bin/env python3
"""check.py <property>: decides one property on the current tree of the repository (see DESIGN.md)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import *
import plans

T0 = time.time()


def header_and_episode(script, line):
    """The commands of the episode the given line of the log belongs to (logs and scripts have the same lines)."""
    ls = open(script).read().split("\n")
    line = min(line, len(ls))
    b = line - 1
    while b > 0 and '"begin"' not in ls[b]:
        b -= 1
    e = line - 1
    while e < len(ls) and '"end"' not in ls[e]:
        e += 1
    return ls[0], ls[b:e + 1]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix=prop + "-", dir=ensure(os.path.join(VERIF, "build")))
    rc = 3
    try:
        rc = plans.run(prop, tier, seed, work, T0)
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == "__main__":
    main()
