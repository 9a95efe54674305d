"""C18: the perft tool against the model's counts, every first move, depths 1..6 (thorough: 7)."""
import os, re, subprocess, sys, time
import common as c


def tool(variant):
    flags = c.VARIANTS[variant]["flags"]
    feat = ["--features", "simd"] if variant == "simd" else []
    target = os.path.join(c.BUILD, "perft-" + variant)
    with c.Lock():
        c.cargo(["build", "--offline", "--release", "--example", "perft", "--manifest-path", os.path.join(c.REPO, "Cargo.toml")] + feat,
                c.BUILD, target, flags, "perft", clean=None, extra_env={"CARGO_PROFILE_RELEASE_LTO": "off"})
    return os.path.join(target, "release", "examples", "perft")


def build_tool(variant):
    # outside the mc workspace: force a rebuild when /repo changed
    target = os.path.join(c.BUILD, "perft-" + variant)
    mark = os.path.join(target, "verif-perft")
    if os.path.exists(target) and (not os.path.exists(mark) or open(mark).read() != c.repo_hash()):
        import shutil
        for d, dirs, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in dirs:
                    if x.startswith("yasai-"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    return tool(variant)


def main(explore, finish):
    t0 = time.time()
    depth = 7 if c.TIER == "thorough" else 6
    exe = c.build("simd")
    want = {}
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, runs=[])
    for d in range(1, depth + 1):
        out = subprocess.run([exe, "perft", str(d)], stdout=subprocess.PIPE, text=True, check=True).stdout
        want[d] = dict((l.split(": ")[0], int(l.split(": ")[1])) for l in out.splitlines())
        cov["states"] += sum(want[d].values())
    viol = None
    for v in ("portable", "simd"):
        p = build_tool(v)
        for d in range(1, depth + 1):
            try:
                r = subprocess.run([p, str(d)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300 if d < 7 else 3600, preexec_fn=c.limit)
                text, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired:
                text, rc = "", "timeout"
            got, dup = {}, []
            for l in text.splitlines():
                m = re.match(r"^\s*([1-9][a-i][1-9][a-i]\+?|[PLNSGBR]\*[1-9][a-i])\s*:\s*(\d+)\s*$", l)
                if m:
                    if m.group(1) in got:
                        dup.append(m.group(1))
                    got[m.group(1)] = int(m.group(2))
            m = re.search(r"Searched:\s*(\d+)", text)
            total = int(m.group(1)) if m else None
            msg = None
            if rc != 0:
                msg = "perft %d ends with %s: %s" % (d, rc, " ".join(text.split())[-300:])
            elif dup:
                msg = "perft %d prints %s twice" % (d, dup)
            elif got != want[d]:
                bad = sorted(k for k in set(got) | set(want[d]) if got.get(k) != want[d].get(k))
                msg = "perft %d: %s" % (d, ", ".join("%s printed %s, true count %s" % (k, got.get(k), want[d].get(k)) for k in bad[:5]))
            elif total != sum(want[d].values()):
                msg = "perft %d prints the total %s, true total %d" % (d, total, sum(want[d].values()))
            cov["runs"].append(dict(build=v, depth=d, root_moves=len(got), total=total))
            cov["traces_validated_against_impl"] += len(got)
            cov["transitions"] += total or 0
            if msg and not viol:
                viol = (v, dict(sfen="lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1", moves="", message=msg, job="perft", chunk=d))
        if viol:
            break
    cov["samples"] = ["depth %d: %s" % (d, " ".join("%s:%d" % x for x in sorted(want[d].items())[:4])) for d in want]
    finish("C18", t0, cov, viol, {}, ["a trace validated is one printed first move whose count was compared; the sequences below it are compared by number (C01 and C02 compare them one by one to depth 4)",
                                      "the tool is the example built in release mode (without link-time optimisation) in both builds"])
