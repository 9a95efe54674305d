import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as c
for v in c.VARIANTS:
    exe = c.build(v)
    r = subprocess.run([exe, "selftest"])
    if r.returncode != 0:
        c.die("the reference model fails its self-test")
import check_c16, check_c18, check_c20
for v in check_c16.BUILDS:
    check_c16.build(v)
for v in ("portable", "simd"):
    check_c18.build_tool(v)
for v in check_c20.MIRI:
    check_c20.miri(v, "", 600)
