"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit-state model checking of the real code: exhaustive enumeration of position families and of all move sequences to a depth, every state and step compared with a reference model"
NOTE = "Every state of the listed families and trees is explored on the real library in both x86-64 builds (portable with overflow and debug assertions, AVX2) and compared with an independent mailbox model. Complete within those bounds; nothing is claimed for positions outside them. Trusts the model (self-tested) and shogi_core."
SPECIAL = {}
exec(open(os.path.join(V, "bin", "manifest_special.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = SPECIAL.get(i, {})
    if s.get("na"):
        na.append(dict(property=i, reason=s["na"]))
        continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       technique=s.get("technique", TECH), level="model_checking", level_note=s.get("note", NOTE)))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks use the public API, and rebuild it from /repo's working tree. C13 and C16 additionally build generated copies of /repo/src with substituted platform modules (see DESIGN.md).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
