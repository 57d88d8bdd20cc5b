#!/usr/bin/env python3
"""replay.py FILE [v]: builds the simulator from /repo's working tree and replays a recorded run. Exit 1: the violation was reproduced."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/sim")
import build
e = build.build()
if not e: sys.exit(2)
os.execv(e, [e, "replay"] + sys.argv[1:])
