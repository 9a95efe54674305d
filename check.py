#!/usr/bin/env python3
"""Decide one property: python3 check.py C01   (VERIF_TIER=quick|thorough)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "bin"))
import common as c

ASSUME = [
    "the reference model mc/src/model.rs states the rules of shogi (checked by `mc selftest`)",
    "bounds: the families and depths listed under coverage.tasks, each explored completely",
]


def builds(prop):
    if prop == "C19" or c.TIER == "thorough":
        return ("portable", "simd", "neon", "wasm")
    return ("portable", "simd")


def explore(prop, variants=None):
    t0 = time.time()
    cap = 260 if c.TIER == "quick" else 3600
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, tasks={}, by_build={})
    viol = None
    known = {}
    digests = {}
    for v in variants or builds(prop):
        exe = c.build(v, fatal=v in ("portable", "simd"))
        if exe is None:
            cov.setdefault("skipped_builds", []).append(v)
            continue
        r, bad = c.run_worker(exe, "C20S" if v == "asan" and c.TIER == "quick" else prop, v, cap)
        if r:
            s = r["stats"]
            cov["states"] += s["states"]
            cov["transitions"] += s["transitions"] + s["takebacks"]
            cov["traces_validated_against_impl"] += s["cases"]
            cov["by_build"][v] = {k: x for k, x in s.items() if x}
            cov["by_build"][v]["wall_s"] = r["wall"]
            if "distinct_keys" in r:
                cov["by_build"][v]["distinct_keys_full_board_hands"] = r["distinct_keys"]
            cov["tasks"][v] = [[t["name"], "%d/%d chunks" % (t["done"], t["chunks"]), t["states"], t["transitions"]] for t in r["tasks"]]
            cov["samples"] += r["samples"][:8]
            if r["capped"]:
                cov["exhaustive"] = False
                cov["cap"] = "the time cap was hit; only the chunks counted as done were explored"
            for a, b in r["known"]:
                known[a] = b
            digests[v] = {(d[0], d[1]): d[2] for d in r.get("digests", [])}
        if bad:
            viol = (v, bad)
            cov["exhaustive"] = False
            break
    return t0, cov, viol, known, digests


def finish(prop, t0, cov, viol, known, extra=()):
    for sfen, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s `%s` %s" % (prop, sfen, what))
    if known:
        cov["known_findings"] = sorted(known)
    if not cov["samples"]:
        cov["samples"] = ["none: stopped at the first violation"]
    c.evidence(prop, cov, time.time() - t0, 1 if viol else 0, ASSUME + list(extra))
    if viol:
        c.violation(prop, viol[0], viol[1])
        sys.exit(1)
    print("%s holds on everything explored: %d states, %d transitions, %.0f s" % (prop, cov["states"], cov["transitions"], time.time() - t0))


def main():
    prop = sys.argv[1]
    if prop in ("C13", "C16", "C18", "C20"):
        mod = __import__("check_" + prop.lower())
        mod.main(explore, finish)
        return
    t0, cov, viol, known, _ = explore(prop)
    finish(prop, t0, cov, viol, known)


main()
