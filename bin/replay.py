#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuilds the flavor a replay file was recorded with around /repo's current tree and replays it.

Exit 1: the recorded violation happens again, event for event (-v prints the whole history).  3: another violation.  0: none.
"""
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    path = os.path.abspath(sys.argv[1])
    text = open(path).read()
    flavor = re.search(r"^flavor (\S+)", text, re.M).group(1)
    d = simlib.scratch()
    try:
        sim = simlib.build([flavor], d)[flavor]
        if text.startswith("tecs-sim-died"):
            g = dict(l.split(" ", 1) for l in text.splitlines())
            rc = subprocess.call([sim, "one", "--profile", g["profile"], "--seed", g["seed"], "--races", g["races"]])
            return 1 if str(rc) == g["exit"] else 0 if rc == 0 else 3
        return subprocess.call([sim, "replay", path] + sys.argv[2:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
