"""Shared by the check drivers: building, supervising workers, replays, evidence."""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THREADS = str(min(8, os.cpu_count() or 8))

VARIANTS = {
    # portable board code, every debug assertion and overflow check on
    "portable": dict(flags="-Ctarget-cpu=x86-64", args=["--profile", "checked"], dir="checked"),
    # AVX2 board code, optimised as users build it
    "simd": dict(flags="-Ctarget-cpu=x86-64-v3", args=["--release", "--features", "simd"], dir="release"),
    # AVX2 board code under AddressSanitizer, as users build it: no assertion stops an access that is about to
    # go wrong (C20; the portable build has all of them)
    "asan": dict(flags="-Ctarget-cpu=x86-64-v3 -Zsanitizer=address", args=["--release", "--features", "simd", "--target", "x86_64-unknown-linux-gnu"],
                 dir="x86_64-unknown-linux-gnu/release", toolchain="+nightly", unlimited=True),
    # the AArch64 and WebAssembly board code, on software versions of their vector instructions
    "neon": dict(flags="-Ctarget-cpu=x86-64 --cap-lints warn", args=["--profile", "checked", "--features", "simd"], dir="checked", gen="aarch64"),
    "wasm": dict(flags="-Ctarget-cpu=x86-64 --cap-lints warn", args=["--profile", "checked", "--features", "simd"], dir="checked", gen="wasm32"),
}
GEN = {
    "aarch64": dict(feature="neon", shim="neon.rs"),
    "wasm32": dict(feature="simd128", shim="wasm.rs"),
}


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def repo_files():
    out = []
    for top in ("src", "examples"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs]
    out += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs", "Cargo.lock") if os.path.exists(os.path.join(REPO, f))]
    return sorted(out)


def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as g:
            h.update(g.read())
        h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(args, cwd, target, flags, stamp, extra_env=None, clean="yasai", toolchain=None, fatal=True):
    """cargo build with the library rebuilt whenever /repo's content differs from what was built last."""
    e = env(CARGO_TARGET_DIR=target, RUSTFLAGS=flags, **(extra_env or {}))
    pre = ["cargo"] + ([toolchain] if toolchain else [])
    mark = os.path.join(target, "verif-" + stamp)
    h = repo_hash()
    if os.path.exists(target) and clean and (not os.path.exists(mark) or open(mark).read() != h):
        subprocess.run(pre + ["clean", "--offline", "-p", clean], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # cargo decides by modification time; make sure the library is looked at again
        for d, dirs, _ in os.walk(target):
            for x in list(dirs):
                if x.startswith(clean + "-") and os.path.basename(d) == ".fingerprint":
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    r = subprocess.run(pre + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if not fatal:
            print(r.stdout[-1500:])
            return None
        sys.stderr.write(r.stdout[-6000:])
        die("build failed: cargo " + " ".join(args))
    os.makedirs(target, exist_ok=True)
    with open(mark, "w") as f:
        f.write(h)
    return r.stdout


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def generate(arch):
    """A copy of the library that takes the board code of another CPU family, with that family's vector
    instructions replaced by software ones. Only configuration conditions and the intrinsics' path change."""
    g = GEN[arch]
    root = os.path.join(BUILD, "gen", arch)
    lib = os.path.join(root, "yasai")
    keep = set()

    def cond(m):
        return "all()" if m.group(2) in (arch, g["feature"]) else "any()"
    for f in repo_files():
        rel = os.path.relpath(f, REPO)
        if not (rel.startswith("src/") or rel in ("Cargo.toml", "build.rs")):
            continue
        try:
            t = open(f).read()
        except UnicodeDecodeError:
            continue
        if rel.endswith(".rs"):
            t = re.sub(r'\b(target_arch|target_feature)\s*=\s*"([^"]*)"', cond, t)
            t = re.sub(r"(?:::)?\b(?:std|core)::arch\b", "crate::verif_shim", t)
            if rel == "src/lib.rs":
                t += '\npub(crate) mod verif_shim {\n    #[allow(unused_imports)]\n    pub use ::std::arch::*;\n    #[path = "%s"]\n    pub mod %s;\n}\n' % (
                    os.path.join(VERIF, "shims", g["shim"]), arch)
        put(os.path.join(lib, rel), t)
        keep.add(os.path.join(lib, rel))
    for d, _, fs in os.walk(lib):
        for x in fs:
            if os.path.join(d, x) not in keep:
                os.unlink(os.path.join(d, x))
    t = open(os.path.join(VERIF, "mc", "Cargo.toml")).read()
    t = t.replace('path = "/repo"', 'path = "../yasai"').replace('path = "src/', 'path = "%s/mc/src/' % VERIF)
    put(os.path.join(root, "mc", "Cargo.toml"), t)
    shutil.copy(os.path.join(VERIF, "mc", "Cargo.lock"), os.path.join(root, "mc", "Cargo.lock"))
    return os.path.join(root, "mc")


def build(variant, fatal=True):
    v = VARIANTS[variant]
    target = os.path.join(BUILD, variant)
    with Lock():
        src = generate(v["gen"]) if "gen" in v else os.path.join(VERIF, "mc")
        if cargo(["build", "--offline", "--bin", "mc"] + v["args"], src, target, v["flags"], "mc", fatal=fatal, toolchain=v.get("toolchain")) is None:
            return None
    return os.path.join(target, v["dir"], "mc")


# ---- worker slots (layout of cx::Slot) ----
SLOT_FMT = "<QIIII64I81s16sBH128s"


def slot_size(n_bytes, threads):
    return n_bytes // threads


def read_slots(path, threads):
    try:
        data = open(path, "rb").read()
    except OSError:
        return []
    if not data or len(data) % threads:
        return []
    sz = len(data) // threads
    out = []
    for i in range(threads):
        b = data[i * sz:(i + 1) * sz]
        seq, busy, job, chunk, plen = struct.unpack_from("<QIIII", b, 0)
        path_ = struct.unpack_from("<64I", b, 24)
        board = b[280:361]
        hands = b[361:377]
        side = b[377]
        ply = struct.unpack_from("<H", b, 378)[0]
        out.append(dict(seq=seq, busy=busy, job=job, chunk=chunk, path=path_[:min(plen, 64)], plen=plen,
                        board=board, hands=hands, side=side, ply=ply))
    return out


def sq_usi(s):
    return "%d%s" % (s // 9 + 1, chr(97 + s % 9))


def mv_usi(m):
    to, src, pro = m & 255, m >> 8 & 255, m >> 16 & 1
    if src > 81:
        return "?PLNSGBR"[src - 81] + "*" + sq_usi(to)
    return sq_usi(src) + sq_usi(to) + ("+" if pro else "")


def slot_sfen(s):
    rows = []
    for r in range(9):
        row, run = "", 0
        for f in range(8, -1, -1):
            p = s["board"][f * 9 + r]
            if p == 0:
                run += 1
                continue
            if run:
                row += str(run)
                run = 0
            k = p & 15
            t = ("+" if k > 8 else "") + "?PLNSGBRKPLNSBR"[k]
            row += t.lower() if p >> 4 else t
        rows.append(row + (str(run) if run else ""))
    h = ""
    for c in range(2):
        for k in range(7, 0, -1):
            n = s["hands"][c * 8 + k]
            if n:
                t = "?PLNSGBR"[k]
                h += (str(n) if n > 1 else "") + (t.lower() if c else t)
    return "%s %s %s %d" % ("/".join(rows), "w" if s["side"] else "b", h or "-", s["ply"])


def write_replay(prop, variant, v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, prop + ".txt")
    one = lambda s: str(s).replace("\n", " ")
    with open(path, "w") as f:
        for k in ("sfen", "moves", "message", "job", "chunk"):
            f.write("%s=%s\n" % (k, one(v.get(k, ""))))
        f.write("property=%s\nvariant=%s\ntier=%s\n" % (prop, variant, TIER))
        f.write("# Re-execute: python3 %s/bin/replay.py %s\n" % (VERIF, path))
        if v.get("sfen"):
            f.write(unit_test(prop, v))
    return path


def unit_test(prop, v):
    """The failing history as a plain unit test against the public API."""
    return """# As a plain test (dev-dependency shogi_usi_parser), the failing history:
# #[test]
# fn %s() {
#     use shogi_usi_parser::FromUsi;
#     let mut pos = yasai::Position::new(shogi_core::PartialPosition::from_usi("sfen %s").unwrap());
#     for m in "%s".split_whitespace() {
#         pos.do_move(shogi_core::Move::from_usi(m).unwrap()); // give drops the colour of pos.side_to_move()
#     }
#     // %s
# }
""" % (prop.lower(), v.get("sfen", ""), v.get("moves", ""), str(v.get("message", "")).replace("\n", " "))


def run_worker(exe, prop, variant, cap, extra=()):
    """Run the explorer; returns (result dict | None, violation | None)."""
    work = os.path.join(BUILD, "run")
    os.makedirs(work, exist_ok=True)
    tag = "%s-%s" % (prop, variant)
    slots, out = os.path.join(work, tag + ".slots"), os.path.join(work, tag + ".json")
    lim = None if VARIANTS.get(variant, {}).get("unlimited") else limit
    run_env = env(ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1")
    for attempt in (1, 2):
        for p in (slots, out):
            if os.path.exists(p):
                os.unlink(p)
        p = subprocess.Popen([exe, "run", "--prop", prop, "--tier", TIER, "--threads", THREADS, "--cap", str(cap),
                              "--slots", slots, "--out", out, "--known", KNOWN] + list(extra),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             preexec_fn=lim, env=run_env)
        import threading
        log = []
        t = threading.Thread(target=lambda: log.extend(iter(p.stdout.readline, "")), daemon=True)
        t.start()
        last, since, hung = {}, {}, []
        t0 = time.time()
        while p.poll() is None:
            time.sleep(0.1)
            now = time.time()
            if now - t0 > 5 and int(now * 10) % 20 == 0:
                for i, s in enumerate(read_slots(slots, int(THREADS))):
                    if s["busy"] != 1 or last.get(i) != s["seq"]:
                        last[i], since[i] = s["seq"], now
                    elif now - since.get(i, now) > 60:
                        hung.append(s)
                if hung:
                    p.kill()
            if now - t0 > cap + 120:
                p.kill()
                die("worker for %s did not stop at its cap" % tag)
        p.wait()
        t.join(5)
        if p.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            if r["violations"]:
                v = r["violations"][0]
                return r, v
            return r, None
        # crashed or hung: every case in flight is a suspect
        what = "hangs" if hung else "crashes the process (exit %s)" % p.returncode
        sus = hung or [s for s in read_slots(slots, int(THREADS)) if s["busy"] == 1]
        for s in sus:
            v = dict(sfen=slot_sfen(s), moves=" ".join(mv_usi(m) for m in s["path"]), message="the library " + what, job="", chunk=0)
            rp = write_replay(prop, variant, v)
            try:
                q = subprocess.run([exe, "replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, preexec_fn=lim, env=run_env)
                if q.returncode not in (0, 2):
                    tail = [l for l in q.stdout.splitlines() if "AddressSanitizer:" in l or "unsafe precondition" in l][:2]
                    tail = tail or [l for l in q.stdout.splitlines() if l.strip()][-3:]
                    v["message"] += ": " + " | ".join(tail)
                    return None, v
            except subprocess.TimeoutExpired:
                v["message"] = "the library hangs"
                return None, v
        print("worker %s %s; no single case reproduces it (attempt %d)" % (tag, what, attempt))
        print("".join(log[-10:]))
    if p.returncode == -9 and not hung:
        die("worker for %s was killed" % tag)
    s = sus[0] if sus else None
    return None, dict(sfen=slot_sfen(s) if s else "", moves="", message="the library %s, twice, in the same exploration" % what, job="", chunk=0)


def limit():
    import resource
    g = 26 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def evidence(prop, coverage, wall, violations, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    e = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=coverage, assumptions=assumptions,
             wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))


def violation(prop, variant, v):
    path = write_replay(prop, variant, v)
    print("property %s broken (%s build): %s" % (prop, variant, v.get("message", "")))
    print("  position: %s" % v.get("sfen", ""))
    print("  moves:    %s" % v.get("moves", ""))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
