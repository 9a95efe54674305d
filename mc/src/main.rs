use mc::cx::*;
use mc::engine::*;
use mc::keys::KeyMaps;
use mc::model::*;
use mc::mon::*;
use mc::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    install_hook();
    if a.0.first().is_some_and(|x| x == "touch") {
        return mc::touch::run();
    }
    geo();
    match a.0.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        Some("dump") => dump(&a),
        Some("selftest") => selftest(),
        Some("answers") => answers(&a),
        Some("touch-list") => mc::touch::list(a.0[1] == "thorough", a.0.get(2).is_some_and(|x| x == "shared")),
        Some("perft") => perft_cmd(&a),
        _ => {
            eprintln!("mc run|replay|dump|selftest");
            std::process::exit(2);
        }
    }
}

fn load_known(a: &Args) -> Vec<Known> {
    let mut v = vec![];
    if let Some(p) = a.get("--known") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            // finding: property=C03 sfen="..." text
            if let Some(r) = l.strip_prefix("finding: property=") {
                let prop = r.split(' ').next().unwrap_or("").to_string();
                let mut q = r.split('"');
                q.next();
                let sfen = q.next().unwrap_or("").to_string();
                let what = q.next().unwrap_or("").trim().to_string();
                v.push(Known { prop, sfen, what });
            }
        }
    }
    v
}

fn map_slots(path: &str, threads: usize) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let len = threads * SLOT;
    f.set_len(len as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

fn run(a: &Args) {
    let t0 = Instant::now();
    let prop = a.get("--prop").unwrap().to_string();
    let thorough = a.get("--tier") == Some("thorough");
    let threads: usize = a.get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let cap: u64 = a.get("--cap").and_then(|x| x.parse().ok()).unwrap_or(300);
    let slots = a.get("--slots").map(|p| map_slots(p, threads));
    let sh = shared(&prop, load_known(a), cap);
    let flags = plan::flag(&prop);
    let mut tasks = plan::tasks(&prop, thorough);
    if let Some(o) = a.get("--only") {
        tasks.retain(|t| t.name.contains(o));
    }
    if prop == "C03" {
        tasks.push(known_task(&sh.known));
    }
    let maps: Option<&'static KeyMaps> = (prop == "C12").then(|| &*Box::leak(Box::new(KeyMaps::new())));
    if prop == "C12" {
        let parts = if thorough { 8 } else { 8 };
        tasks.push(Task {
            name: "every pair of single differences".into(),
            n: parts,
            run: Box::new(move |cx, c, sh| {
                for (_, v) in mc::keys::atoms(cx, c, parts) {
                    sh.report(v);
                }
            }),
        });
    }
    let o = execute(&tasks, &sh, flags, threads, slots, maps, &[]);
    let mut s = String::new();
    let _ = write!(s, "{{\"prop\":{},\"wall\":{:.2},\"capped\":{}", js(&prop), t0.elapsed().as_secs_f64(), sh.capped.load(Ordering::Relaxed));
    s += ",\"stats\":{";
    for i in 0..N_STAT {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(STAT_NAMES[i]), o.stats.v[i]);
    }
    s += "},\"tasks\":[";
    for (i, t) in o.per_task.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"name\":{},\"chunks\":{},\"done\":{},\"states\":{},\"transitions\":{},\"cpu_s\":{:.2}}}",
            if i > 0 { "," } else { "" },
            js(&t.0),
            tasks[i].n,
            t.1,
            t.2,
            t.3,
            t.4
        );
    }
    s += "],\"samples\":[";
    s += &o.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
    s += "],\"known\":[";
    s += &sh.known_hit.lock().unwrap().iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(",");
    s += "],\"violations\":[";
    let vs = sh.viols.lock().unwrap();
    s += &vs
        .iter()
        .map(|v| {
            format!(
                "{{\"sfen\":{},\"moves\":{},\"message\":{},\"job\":{},\"chunk\":{}}}",
                js(&v.root.sfen()),
                js(&v.path.iter().map(|m| m.usi()).collect::<Vec<_>>().join(" ")),
                js(&v.msg),
                js(&v.job),
                v.chunk
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    s += "]";
    if let Some(m) = maps {
        let z = m.sizes();
        let _ = write!(s, ",\"distinct_keys\":[{},{},{}]", z.0, z.1, z.2);
    }
    if flags & C13 != 0 {
        s += ",\"digests\":[";
        s += &o.digests.iter().map(|d| format!("[{},{},\"{:x}\"]", js(&tasks[d.0].name), d.1, d.2)).collect::<Vec<_>>().join(",");
        s += "]";
    }
    s += "}\n";
    match a.get("--out") {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => print!("{s}"),
    }
}

fn known_task(known: &[Known]) -> Task {
    let list: Vec<St> = known.iter().filter(|k| k.prop == "C03").filter_map(|k| St::from_sfen(&k.sfen)).collect();
    Task {
        name: "recorded findings".into(),
        n: list.len(),
        run: Box::new(move |cx, c, sh| {
            let st = list[c];
            if let Err(v) = cx.case(&st, |cx| node(cx, &st, &imp::build(&st), true)) {
                sh.report(v);
            }
        }),
    }
}
/// The model's count for every first move, all cores.
fn perft_cmd(a: &Args) {
    let d: u32 = a.0[1].parse().unwrap();
    let st = St::start();
    let mut v = Vec::new();
    st.legal(&mut v);
    v.sort();
    let mut jobs = vec![];
    for (i, &m) in v.iter().enumerate() {
        let n = st.apply(m);
        if d >= 4 {
            let mut w = Vec::new();
            n.legal(&mut w);
            jobs.extend(w.iter().map(|&r| (i, n.apply(r), d - 2)));
        } else {
            jobs.push((i, n, d - 1));
        }
    }
    let sums: Vec<std::sync::atomic::AtomicU64> = v.iter().map(|_| Default::default()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some((i, n, d)) = jobs.get(next.fetch_add(1, Ordering::Relaxed)) else { break };
                let c = if *d == 0 { 1 } else { perft(n, *d) };
                sums[*i].fetch_add(c, Ordering::Relaxed);
            });
        }
    });
    for (m, c) in v.iter().zip(&sums) {
        println!("{}: {}", m.usi(), c.load(Ordering::Relaxed));
    }
}

/// Re-execute one recorded violation. Exit 1 when it shows again.
fn replay(a: &Args) {
    let file = &a.0[1];
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("").to_string();
    let prop = field("property");
    let st = St::from_sfen(&field("sfen")).expect("sfen");
    let path = roots::moves(&field("moves"));
    let mut cx = Cx::new(plan::flag(&prop), None);
    let maps: &'static KeyMaps = Box::leak(Box::new(KeyMaps::new()));
    if prop == "C12" {
        cx.keys = Some(maps);
    }
    println!("property {prop}\nposition {}\nmoves {}", st.sfen(), field("moves"));
    let other = field("message").split('`').nth(1).and_then(St::from_sfen);
    let mut r = Ok(());
    if let Some(o) = other.filter(|_| prop == "C12") {
        r = cx.case(&o, |cx| node(cx, &o, &imp::build(&o), true));
    }
    if r.is_ok() {
        r = cx.case(&st, |cx| line(cx, &st, &path));
    }
    if r.is_ok() {
        r = cx.case(&st, |cx| {
            let mut pos = imp::build(&st);
            prefix_walk(cx, &st, &mut pos, &path);
        });
    }
    match r {
        Err(v) => {
            println!("VIOLATED: {}\n  after [{}]", v.msg, v.path.iter().map(|m| m.usi()).collect::<Vec<_>>().join(" "));
            std::process::exit(1);
        }
        Ok(()) => {}
    }
    // not shown by that one history: do again everything the explorer did in the chunk that failed
    let (job, chunk) = (field("job"), field("chunk").parse::<usize>().unwrap_or(0));
    let tasks = if flag_known(&prop) { plan::tasks(&prop, field("tier") == "thorough") } else { vec![] };
    if let Some(t) = tasks.iter().find(|t| t.name == job && chunk < t.n) {
        let sh: &'static Shared = Box::leak(Box::new(shared(&prop, vec![], 900)));
        (t.run)(&mut cx, chunk, sh);
        let found = sh.viols.lock().unwrap();
        if let Some(v) = found.first() {
            println!("VIOLATED in {job}, chunk {chunk}: {}\n  position {}\n  after [{}]", v.msg, v.root.sfen(), v.path.iter().map(|m| m.usi()).collect::<Vec<_>>().join(" "));
            std::process::exit(1);
        }
    }
    println!("holds");
}
fn flag_known(prop: &str) -> bool {
    std::panic::catch_unwind(|| plan::flag(prop)).is_ok()
}
fn shared(prop: &str, known: Vec<Known>, cap: u64) -> Shared {
    Shared {
        prop: prop.into(),
        stop: AtomicBool::new(false),
        viols: Mutex::new(vec![]),
        known,
        known_hit: Mutex::new(vec![]),
        deadline: deadline(cap),
        capped: AtomicBool::new(false),
    }
}
/// Along the line, explore all single moves at every position first: what the explorer did before it failed.
fn prefix_walk(cx: &mut Cx, st: &St, pos: &mut imp::Pos, path: &[Mv]) {
    walk(cx, st, pos, 1, false);
    if let Some(&m) = path.first() {
        let lm = imp::mv(m, st.side);
        cx.push(m);
        pos.do_move(lm);
        prefix_walk(cx, &st.apply(m), pos, &path[1..]);
        pos.undo_move(lm);
        cx.pop();
        walk(cx, st, pos, 1, false);
    }
}

/// Per-case digests of one chunk, for finding where two builds differ.
fn dump(a: &Args) {
    let prop = a.get("--prop").unwrap();
    let tasks = plan::tasks(prop, a.get("--tier") == Some("thorough"));
    let t = tasks.iter().find(|t| t.name == a.get("--job").unwrap()).expect("job");
    let chunk: usize = a.get("--chunk").unwrap().parse().unwrap();
    let sh = shared(prop, vec![], 600);
    let mut cx = Cx::new(plan::flag(prop), None);
    cx.dump = Some(vec![]);
    (t.run)(&mut cx, chunk, &sh);
    let mut out = String::new();
    for (s, d) in cx.dump.take().unwrap() {
        let _ = writeln!(out, "{d:016x} {s}");
    }
    print!("{out}");
}

/// Every public answer of one position, readable.
fn answers(a: &Args) {
    let st = St::from_sfen(&a.0[1]).expect("sfen");
    let p = imp::build(&st);
    println!("reads: {}", imp::read(&p).sfen());
    println!("in_check: {}", p.in_check());
    println!("keys: {:x?} {:x}", p.keys(), p.key());
    let l = p.legal_moves();
    let mut v: Vec<String> = l.iter().map(|&m| imp::unmv(m, st.side).map_or("?".into(), |x| x.usi())).collect();
    v.sort();
    println!("moves: {}", v.join(" "));
    let mut v: Vec<String> =
        l.iter().filter(|&&m| p.is_check_move(m)).map(|&m| imp::unmv(m, st.side).map_or("?".into(), |x| x.usi())).collect();
    v.sort();
    println!("checking: {}", v.join(" "));
}

fn selftest() {
    let mut n = 0u64;
    for (d, want) in [(1, 30), (2, 900), (3, 25470), (4, 719731)] {
        assert_eq!(perft(&St::start(), d), want, "perft {d}");
    }
    let st = St::from_sfen(roots::MAX593).unwrap();
    assert_eq!(perft(&st, 1), 593);
    let st = St::from_sfen(roots::SEEDS[1]).unwrap();
    assert_eq!(perft(&st, 1), 207);
    let mut v = Vec::new();
    let mut check = |st: &St| {
        n += 1;
        for s in 0..81u8 {
            for c in 0..2 {
                assert_eq!(st.attacked(s, c), st.attackers_naive(s, c) > 0, "{}", st.sfen());
            }
        }
        st.legal(&mut v);
        let mut w = st.legal_naive();
        v.sort();
        w.sort();
        assert_eq!(v, w, "{}", st.sfen());
        assert!(st.material_ok(), "{}", st.sfen());
        assert_eq!(St::from_sfen(&st.sfen()).as_ref(), Some(st));
        let mut r: Vec<Mv> = v.iter().map(|m| m.rotated()).collect();
        r.sort();
        let mut w = vec![];
        st.rotated().legal(&mut w);
        w.sort();
        assert_eq!(r, w, "{}", st.sfen());
    };
    for s in roots::SEEDS {
        let st = St::from_sfen(s).unwrap();
        assert!(st.legal_position(), "{s}");
        check(&st);
        let mut l = Vec::new();
        st.legal(&mut l);
        for &m in &l {
            check(&st.apply(m));
        }
        for g in 0..4 {
            let mut x = st;
            for m in roots::game(g, &st, 150) {
                x = x.apply(m);
                check(&x);
            }
        }
    }
    let c = roots::moves(roots::CYCLE);
    let root = St::from_sfen(roots::CYCLE_ROOT).unwrap();
    let mut x = root;
    for m in c {
        let mut l = Vec::new();
        x.legal(&mut l);
        assert!(l.contains(&m), "{} in {}", m.usi(), x.sfen());
        x = x.apply(m);
    }
    println!("selftest: {n} positions");
}
