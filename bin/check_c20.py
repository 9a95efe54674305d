"""C20: complete families of positions and move sequences executed on the real code under monitors that see
undefined behaviour: the Miri interpreter (all four board backends), AddressSanitizer, and every debug assertion
of the library, its dependencies and the standard library; concurrent programs under the race detector of C16."""
import concurrent.futures, os, re, subprocess, sys, time
import common as c
import check_c16 as c16

MIRI = {
    "portable": ("-Ctarget-cpu=x86-64", []),
    "simd": ("-Ctarget-cpu=x86-64-v3", ["--features", "simd"]),
    "neon": ("-Ctarget-cpu=x86-64 --cap-lints warn", ["--features", "simd"]),
    "wasm": ("-Ctarget-cpu=x86-64 --cap-lints warn", ["--features", "simd"]),
}


def miri(v, cases, secs):
    """Run cases (lines) in the interpreter; returns (exit code, output)."""
    flags, args = MIRI[v]
    g = c.VARIANTS[v].get("gen")
    with c.Lock():
        src = c.generate(g) if g else os.path.join(c.VERIF, "mc")
        target = os.path.join(c.BUILD, "miri-" + v)
        e = c.env(CARGO_TARGET_DIR=target, RUSTFLAGS=flags, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
        h = c.repo_hash()
        mark = os.path.join(target, "verif-miri")
        if not os.path.exists(mark) or open(mark).read() != h:
            subprocess.run(["cargo", "+nightly", "clean", "--offline", "--release", "-p", "yasai"], cwd=src, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for d, dirs, _ in os.walk(target):
                if os.path.basename(d) == ".fingerprint":
                    for x in dirs:
                        if x.startswith("yasai-"):
                            import shutil
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        cmd = ["cargo", "+nightly", "miri", "run", "--release", "--offline", "--bin", "mc"] + args + ["--", "touch"]
        # with no input: build only
        p = subprocess.run(cmd, cwd=src, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            with open(mark, "w") as f:
                f.write(h)
        elif "TOTAL" not in p.stdout:
            return None, p.stdout
    if not cases:
        return 0, p.stdout
    q = subprocess.Popen(cmd, cwd=src, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = q.communicate(cases, timeout=secs)
        return q.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, 9)
        out, _ = q.communicate()
        return "time", out


def verdict(rc, out):
    """None: fine; ("ub", message, case) or ("skip", message)."""
    at = [l[5:] for l in out.splitlines() if l.startswith("CASE ")]
    at = at[-1] if at else ""
    if rc == 0:
        return None
    m = re.search(r"^error: (Undefined Behavior: .*)$", out, re.M)
    bad = [l[4:] for l in out.splitlines() if l.startswith("BAD ")]
    if m or bad:
        loc = re.search(r"^\s*--> (\S+)", out[m.start():], re.M) if m else None
        return ("ub", (m.group(1) if m else bad[0]) + (" at " + loc.group(1) if loc else ""), at)
    if rc == "time":
        return ("cap", "time", at)
    tail = re.findall(r"^error: .*$", out, re.M)
    return ("skip", (tail or out.splitlines()[-1:] or [""])[0], at)


def replay(f):
    v = f["variant"]
    if v.startswith("miri-"):
        rc, out = miri(v[5:], f["job"] + "\n", 600)
        print("\n".join(out.splitlines()[-30:]))
        x = verdict(rc, out)
        return 1 if x and x[0] == "ub" else 0
    if v.startswith("sched-"):
        return c16.replay(dict(f, variant=v[6:]))
    exe = c.build(v)
    path = os.path.join(c.REPLAYS, "C20.txt")
    e = c.env(ASAN_OPTIONS="detect_leaks=0:exitcode=77")
    return 1 if subprocess.run([exe, "replay", path], env=e).returncode else 0


def main(explore, finish):
    th = c.TIER == "thorough"
    t0, cov, viol, known, _ = explore("C20", ("portable", "asan"))
    extra = ["Miri interprets the library (compiled from /repo's working tree) under Stacked Borrows; the AArch64 and WebAssembly sources run on software versions of their vector instructions, which do the same loads and stores through the same pointers",
             "a panic is defined behaviour and is not reported here"]
    if viol:
        return finish("C20", t0, cov, viol, known, extra)
    # the interpreter
    exe = c.build("portable")
    lines = subprocess.run([exe, "touch-list", c.TIER], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    cov["interpreted_families"] = [l[2:] for l in lines if l.startswith("#")]
    lines = [l for l in lines if not l.startswith("#")]
    # what all backends share, in situations that only other families reach: on one backend
    shared = subprocess.run([exe, "touch-list", c.TIER, "shared"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    cov["interpreted_families_portable_only"] = [l[2:] for l in shared if l.startswith("#")]
    shared = [l for l in shared if not l.startswith("#")]
    cov["interpreted"] = {}
    shares = []
    n = 16 if th else 2
    for v in MIRI:
        rc, out = miri(v, "", 600)
        if rc is None:
            if v in ("portable", "simd"):
                sys.stderr.write(out[-3000:])
                c.die("Miri build failed")
            cov["interpreted"][v] = "does not build"
            continue
        x = verdict(rc, out)
        if x and x[0] == "ub":
            viol = viol or ("miri-" + v, dict(message=x[1], job="", sfen="", moves=""))
        shares += [(v, i) for i in range(n)]
    shares.sort(key=lambda s: s[1])
    ns = 64 if th else 8
    shares = [(v, i, lines[i::n]) for v, i in shares] + [("portable", n + i, shared[i::ns]) for i in range(ns)]
    def go(s):
        v, i, mine = s
        if viol:
            return None
        mine = "".join(l + "\n" for l in mine)
        return v, i, miri(v, mine, 3000 if th else max(30, min(420, 780 - (time.time() - t0))))
    if not viol:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in ex.map(go, shares):
                if not r:
                    continue
                v, i, (rc, out) = r
                k = cov["interpreted"].setdefault(v, dict(cases=0, states=0, transitions=0, skipped=[]))
                m = re.search(r"^TOTAL (\d+) (\d+) (\d+)", out, re.M)
                if m:
                    a, s, t = map(int, m.groups())
                    k["cases"] += a
                    k["states"] += s
                    k["transitions"] += t
                    cov["states"] += s
                    cov["transitions"] += t
                    cov["traces_validated_against_impl"] += a
                x = verdict(rc, out)
                if x and x[0] == "ub" and not viol:
                    d, sfen = (x[2].split(" ", 1) + [""])[:2] if x[2] else ("0", "")
                    viol = ("miri-" + v, dict(message="Miri: " + x[1], job=x[2], sfen=sfen, moves="", chunk=0))
                elif x and x[0] != "ub":
                    cov["exhaustive"] = False
                    k["skipped"].append("share %d: %s at %s" % (i, x[1], x[2]))
    # data races
    if not viol:
        cov["concurrent"] = []
        for v in c16.BUILDS:
            e = c16.build(v)
            progs = [l.split(" ", 1) for l in subprocess.run([e, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
            two = [i for i, p in enumerate(progs) if p[0] == "2"]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for i, r in zip(two, ex.map(lambda i: c16.one(e, i, [1, 2, 3] if th else [1], 200000, 60 if th else max(5, min(60, 840 - (time.time() - t0)))), two)):
                    cov["concurrent"].append([v, progs[i][1], r["executions"]])
                    cov["transitions"] += r["events"]
                    if r["violation"] and "data race" in r["violation"] and not viol:
                        viol = ("sched-" + v, dict(sfen="", moves="", message="%s: %s" % (progs[i][1], c16.where(e, r["violation"])), job="%s @ %s" % (progs[i][1], r["schedule"]), chunk=0))
    finish("C20", t0, cov, viol, known, extra)
