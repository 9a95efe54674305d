#!/usr/bin/env python3
"""Re-execute a recorded violation: replay.py FILE. Exit 1 when it shows again."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as c
f = dict(l.rstrip("\n").split("=", 1) for l in open(sys.argv[1]) if "=" in l and not l.startswith("#"))
try:
    mod = __import__("check_" + f["property"].lower())
except ImportError:
    mod = None
if mod and hasattr(mod, "replay"):
    sys.exit(mod.replay(f))
exe = c.build(f.get("variant") if f.get("variant") in c.VARIANTS else "portable")
r = subprocess.run([exe, "replay", sys.argv[1]])
sys.exit(0 if r.returncode == 0 else 1)
