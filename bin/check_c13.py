"""C13: the same exploration in every build; the answers of every chunk are condensed to a digest and compared."""
import subprocess, sys
import common as c

BASE = "portable"


def dump(exe, job, chunk, tier):
    p = subprocess.run([exe, "dump", "--prop", "C13", "--tier", tier, "--job", job, "--chunk", str(chunk)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=c.limit)
    out = []
    for l in p.stdout.splitlines():
        w = l.split(" ", 1)
        if len(w) == 2 and len(w[0]) == 16:
            out.append((w[0], w[1]))
    return out, p


def compare(variant, job, chunk, tier):
    """First position of a chunk on which two builds disagree, with both builds' answers."""
    a, _ = dump(c.build(BASE), job, chunk, tier)
    b, _ = dump(c.build(variant), job, chunk, tier)
    for x, y in zip(a, b):
        if x != y:
            sfen = x[1]
            said = []
            for v in (BASE, variant):
                r = subprocess.run([c.build(v), "answers", sfen], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=c.limit).stdout
                said.append(dict(l.split(": ", 1) for l in r.splitlines() if ": " in l))
            for k in sorted(set(said[0]) | set(said[1])):
                p, q = said[0].get(k), said[1].get(k)
                if p != q:
                    if k in ("moves", "checking"):
                        s, t = set((p or "").split()), set((q or "").split())
                        return sfen, "%s: only the %s build has [%s], only the %s build has [%s]" % (k, BASE, " ".join(sorted(s - t)), variant, " ".join(sorted(t - s)))
                    return sfen, "%s: %s in the %s build, %s in the %s build" % (k, p, BASE, q, variant)
            return sfen, "the builds %s and %s answer differently somewhere below this position" % (BASE, variant)
    if len(a) != len(b):
        return "", "the builds %s and %s stop at different places" % (BASE, variant)
    return None


def replay(f):
    r = compare(f["variant"], f["job"], int(f["chunk"]), f.get("tier", "quick"))
    print("differs at %s: %s" % r if r else "holds")
    return 1 if r else 0


def main(explore, finish):
    t0, cov, viol, known, dig = explore("C13", (BASE,))
    skipped = []
    for v in ("simd", "neon", "wasm"):
        if viol:
            break
        if c.build(v, fatal=(v == "simd")) is None:
            skipped.append(v)
            continue
        _, cv, viol, _, d = explore("C13", (v,))
        cov["states"] += cv["states"]
        cov["transitions"] += cv["transitions"]
        cov["traces_validated_against_impl"] += cv["traces_validated_against_impl"]
        cov["exhaustive"] &= cv["exhaustive"]
        cov["by_build"].update(cv["by_build"])
        cov["tasks"].update(cv["tasks"])
        if viol:
            break
        both = [k for k in dig[BASE] if k in d[v]]
        cov.setdefault("chunks_compared", {})[v] = len(both)
        for k in both:
            if dig[BASE][k] != d[v][k]:
                sfen, msg = compare(v, k[0], k[1], c.TIER) or ("", "digests differ, but not when the chunk runs alone")
                viol = (v, dict(sfen=sfen, moves="", message=msg, job=k[0], chunk=k[1]))
                break
    if skipped:
        cov["skipped_builds"] = skipped
        print("not compared, their code uses an instruction without a software version: " + ", ".join(skipped))
    finish("C13", t0, cov, viol, known,
           ["neon, wasm: the library's own AArch64 and WebAssembly board code, compiled for this machine with software versions (shims/) of the vector instructions it calls; the instructions' definitions are trusted",
            "digests are 64-bit sums of per-position hashes over all public answers"])
