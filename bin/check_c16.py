"""C16: every interleaving (dynamic partial-order reduction) of small concurrent programs over the library,
in freshly forked processes; every order of first use; the answers equal the sequential ones."""
import concurrent.futures, itertools, json, os, re, subprocess, sys, time
import common as c

SCHED = os.path.join(c.VERIF, "sched")
BUILDS = {"portable": ("-Ctarget-cpu=x86-64", []), "simd": ("-Ctarget-cpu=x86-64-v3", ["--features", "simd"])}
TRIPLE = "x86_64-unknown-linux-gnu"


def build(v):
    flags, args = BUILDS[v]
    target = os.path.join(c.BUILD, "sched-" + v)
    with c.Lock():
        c.cargo(["build", "--offline", "--release", "--target", TRIPLE] + args, SCHED, target,
                flags + " -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer", "sched", toolchain="+nightly")
    return os.path.join(target, TRIPLE, "release", "sched")


def where(exe, msg):
    m = re.search(r"code at \+(0x[0-9a-f]+)", msg)
    if not m:
        return msg
    out = subprocess.run(["addr2line", "-e", exe, hex(int(m.group(1), 16) - 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    return msg.replace("code at +" + m.group(1), "code at " + out) if out else msg


def one(exe, i, b, cap, secs):
    """Explore one program with at most b race reversals (0: no limit)."""
    p = subprocess.run([exe, "explore", str(i), str(b), str(cap), "%.0f" % max(secs, 2)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    lines = p.stdout.splitlines()
    js = [l for l in lines if l.startswith("{")]
    if not js:
        return dict(program=i, threads=0, executions=0, events=0, states=0, violation="the exploration itself ends with %s: %s" % (p.returncode, " ".join(lines)[-300:]), schedule="", capped=False, odd=False, bound=b, lost=True)
    r = json.loads(js[0])
    r["notes"] = [l for l in lines if l.startswith("NOTE")]
    return r


def rounds(exe, n, bounds, cap, secs, total, small=None):
    """All programs with growing bounds, each bound for all programs first; what is left of `total` seconds is shared evenly."""
    end = time.time() + total
    best, live = [None] * n, list(range(n))
    for b in sorted({x for i in range(n) for x in bounds(i)}, key=lambda x: x or 99):
        # the third reversal only where the programs are small enough
        todo = [i for i in live if b in bounds(i) and not (small and b > 2 and best[i]["executions"] > small)]
        left = [len(todo)]

        def go(i):
            share = (end - time.time()) * 8 / max(left[0], 8)
            left[0] -= 1
            return i, one(exe, i, b, cap, min(secs, share))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, r in ex.map(go, todo):
                done = not (r["capped"] or r["odd"])
                old = best[i]
                r["complete_to"] = b if done else old.get("complete_to") if old else None
                if old:
                    r["executions"] += old["executions"]
                    r["events"] += old["events"]
                best[i] = r
                if r["violation"] or not done or (r["threads"] and r["bound"] == 0):
                    live.remove(i)
        if any(r and r["violation"] for r in best):
            break
    return best


def replay(f):
    exe = build(f["variant"])
    prog, sched = f["job"].split(" @ ")
    if prog == "orders":
        bad = orders(exe, None)[1]
        print(bad or "holds")
        return 1 if bad else 0
    return subprocess.run([exe, "replay", prog, sched]).returncode


def orders(exe, cov):
    """All orders of first use, one process each: every operation must answer the same in all of them. The first
    result is the answers with the lists sorted, for comparing builds."""
    # operation 6 comes last, after the others in every order, and first, before the others led by any three
    perms = [p + (6,) for p in itertools.permutations(range(6))]
    perms += [(6,) + p + tuple(x for x in range(6) if x not in p) for p in itertools.permutations(range(6), 3)]
    ref, bad = None, None

    def go(p):
        r = subprocess.run([exe, "order", ",".join(map(str, p))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        return p, r.returncode, r.stdout
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for p, rc, out in ex.map(go, perms):
            if rc:
                bad = bad or "operations in the order %s: the process ends with %s: %s" % (p, rc, out[-300:])
            elif ref is None:
                ref = out
            elif out != ref and not bad:
                d = [a.split()[0] for a, b in zip(ref.splitlines(), out.splitlines()) if a != b]
                bad = "two runs of the same operations, in the orders %s and %s, answer differently: %s" % (perms[0], p, d)
    if not bad:
        ref = subprocess.run([exe, "order", "0,1,2,3,4,5,6", "sorted"], stdout=subprocess.PIPE, text=True).stdout
    if cov is not None:
        cov["orders_of_first_use"] = cov.get("orders_of_first_use", 0) + len(perms)
    return ref, bad


def main(explore, finish):
    t0 = time.time()
    th = c.TIER == "thorough"
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, programs=[])
    viol = None
    refs = {}
    for v in BUILDS:
        exe = build(v)
        ref, bad = orders(exe, cov)
        refs[v] = ref
        if bad:
            viol = (v, dict(sfen="", moves="", message=bad, job="orders @ ", chunk=0))
            break
        if len(set(refs.values())) > 1 and None not in refs.values():
            viol = (v, dict(sfen="", moves="", message="the builds give different answers to the same operations", job="orders @ ", chunk=0))
            break
        progs = [l.split(" ", 1) for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]

        def bounds(i):
            nt = int(progs[i][0])
            if th:
                return [1, 2, 3, 4, 0] if nt == 2 else [1, 2, 3]
            wide = "diagrams+tables" in progs[i][1]
            return ([1, 2, 3] if nt == 2 and not wide else [1, 2]) if v == "portable" else ([1, 2] if nt == 2 else [1])
        if th:
            res = rounds(exe, len(progs), bounds, 3000000, 900 if v == "portable" else 120, 14000 if v == "portable" else 3000)
        else:
            res = rounds(exe, len(progs), bounds, 200000, 90, 300 if v == "portable" else 180, 440)
        for (nt, name), r in zip(progs, res):
            cov["traces_validated_against_impl"] += r["executions"]
            cov["transitions"] += r["events"]
            cov["states"] += r["states"]
            cov["programs"].append([v, name, int(nt), "all schedules with at most %s race reversals" % r["complete_to"] if r.get("complete_to") else
                                    ("all schedules" if r.get("complete_to") == 0 else "capped"), r["executions"], r["events"]])
            if r["capped"] or r["odd"]:
                cov["exhaustive"] = False
                cov.setdefault("not_completed", []).append([v, name, r.get("bound"), r.get("notes")])
            if r["violation"] and not viol:
                if r.get("lost"):
                    c.die(r["violation"])
                viol = (v, dict(sfen="", moves="", message="%s: %s" % (name, where(exe, r["violation"])), job="%s @ %s" % (name, r["schedule"]), chunk=0))
        if viol:
            break
    cov["samples"] = ["%s: %s, %d schedules" % (p[0], p[1], p[4]) for p in cov["programs"][:6]] or ["none: stopped at the first violation"]
    finish("C16", t0, cov, viol, {},
           ["schedules are enumerated at atomic operations and futex calls of the library and of the crates it uses; the standard library's own precompiled code runs without being interrupted",
            "executions are sequentially consistent; wrong orderings of atomics are found as data races by the happens-before monitor on every schedule",
            "a state is a node of the tree of schedules explored (at the largest bound), a transition a visible operation executed, a validated trace one complete schedule run on the real code"])
