//! Runs tasks over all cores, collects counts, violations and digests.

use crate::cx::*;
use crate::fam::Fam;
use crate::imp;
use crate::model::*;
use crate::mon::*;
use crate::roots;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Known {
    pub prop: String,
    pub sfen: String,
    pub what: String,
}
pub struct Shared {
    pub prop: String,
    pub stop: AtomicBool,
    pub viols: Mutex<Vec<Viol>>,
    pub known: Vec<Known>,
    pub known_hit: Mutex<Vec<(String, String)>>,
    pub deadline: Instant,
    pub capped: AtomicBool,
}
impl Shared {
    /// Returns false when the exploration should stop.
    pub fn report(&self, v: Viol) -> bool {
        let t = v.root.sfen();
        if v.path.is_empty() {
            if let Some(k) = self.known.iter().find(|k| k.prop == self.prop && k.sfen == t) {
                let mut h = self.known_hit.lock().unwrap();
                if !h.iter().any(|x| x.0 == t) {
                    h.push((t, format!("{} [{}]", k.what, v.msg)));
                }
                return true;
            }
        }
        let mut g = self.viols.lock().unwrap();
        g.push(v);
        self.stop.store(true, Ordering::Relaxed);
        false
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Ordering::Relaxed) {
            return true;
        }
        false
    }
}

pub type Run = Box<dyn Fn(&mut Cx, usize, &Shared) + Sync>;
pub struct Task {
    pub name: String,
    pub n: usize,
    pub run: Run,
}

pub fn family(f: Fam, depth: u32) -> Task {
    Task {
        name: format!("{} depth {depth}", f.name()),
        n: f.chunks(),
        run: Box::new(move |cx, chunk, sh| {
            f.run(chunk, &mut |st| {
                if sh.stopped() {
                    return;
                }
                let r = cx.case(st, |cx| {
                    let mut pos = imp::build(st);
                    walk(cx, st, &mut pos, depth, true);
                });
                if let Err(v) = r {
                    sh.report(v);
                }
            });
        }),
    }
}

/// All move sequences up to `depth` from a root; one chunk per first (and second) move.
pub fn tree(root: &str, depth: u32) -> Task {
    let st = St::from_sfen(root).unwrap();
    let mut v = Vec::new();
    st.legal(&mut v);
    v.sort();
    let mut pre: Vec<Vec<Mv>> = vec![];
    if depth >= 3 {
        for &m in &v {
            let n = st.apply(m);
            let mut w = Vec::new();
            n.legal(&mut w);
            if w.is_empty() {
                pre.push(vec![m]);
            }
            w.sort();
            for &r in &w {
                pre.push(vec![m, r]);
            }
        }
    } else if depth >= 1 {
        pre = v.iter().map(|&m| vec![m]).collect();
    }
    if pre.is_empty() {
        pre.push(vec![]);
    }
    Task {
        name: format!("tree depth {depth} from {root}"),
        n: pre.len(),
        run: Box::new(move |cx, chunk, sh| {
            let p = &pre[chunk];
            let r = cx.case(&st, |cx| {
                let mut pos = imp::build(&st);
                descend(cx, &st, &mut pos, p, depth, true);
            });
            if let Err(v) = r {
                sh.report(v);
            }
        }),
    }
}
fn descend(cx: &mut Cx, st: &St, pos: &mut imp::Pos, pre: &[Mv], depth: u32, fresh: bool) {
    if pre.is_empty() {
        walk(cx, st, pos, depth, fresh);
        return;
    }
    node(cx, st, pos, fresh);
    let m = pre[0];
    let snap = cx.has(C09).then(|| obs(pos));
    let lm = imp::mv(m, st.side);
    cx.push(m);
    pos.do_move(lm);
    cx.inc(S_::transitions, 1);
    descend(cx, &st.apply(m), pos, &pre[1..], depth - 1, false);
    pos.undo_move(lm);
    cx.pop();
    if let Some(s) = snap {
        let o = obs(pos);
        if o != s {
            cx.fail(format!("after {} and its take-back: {}", m.usi(), diff(&s, &o)));
        }
    }
}

/// Fixed games played on one position object: every position examined, with all move sequences of length
/// `depth` at every `every`-th ply, then everything taken back.
pub fn games(n: usize, plies: usize, every: usize, depth: u32) -> Task {
    Task {
        name: format!("{n} games of up to {plies} plies, depth {depth} at every {every}th ply"),
        n,
        run: Box::new(move |cx, chunk, sh| {
            if sh.stopped() {
                return;
            }
            let root = match chunk % 4 {
                0 | 1 => St::start(),
                2 => St::from_sfen(roots::SEEDS[1]).unwrap(),
                _ => St::from_sfen(roots::SEEDS[2]).unwrap(),
            };
            let g = roots::game(chunk as u64 * 7919 + 1, &root, plies);
            let r = cx.case(&root, |cx| playline(cx, &root, &g, every, depth, usize::MAX));
            if let Err(v) = r {
                sh.report(v);
            }
        }),
    }
}

/// A position object carried along a whole line, then back.
pub fn playline(cx: &mut Cx, root: &St, g: &[Mv], every: usize, depth: u32, window: usize) {
    let mut pos = imp::build(root);
    let mut sts = Vec::with_capacity(g.len() + 1);
    sts.push(*root);
    let mut snaps: Vec<Obs> = vec![];
    node(cx, root, &pos, true);
    for (i, &m) in g.iter().enumerate() {
        let st = sts[i];
        if every > 0 && i % every == 0 && depth > 0 {
            walk(cx, &st, &mut pos, depth, false);
        }
        if cx.has(C09) {
            snaps.push(obs(&pos));
        }
        cx.push(m);
        pos.do_move(imp::mv(m, st.side));
        cx.inc(S_::transitions, 1);
        let n = st.apply(m);
        sts.push(n);
        node(cx, &n, &pos, false);
    }
    cx.max(S_::max_path, g.len() as u64);
    for (i, &m) in g.iter().enumerate().rev() {
        pos.undo_move(imp::mv(m, sts[i].side));
        cx.pop();
        cx.inc(S_::takebacks, 1);
        if cx.has(C09) {
            let o = obs(&pos);
            if o != snaps[i] {
                cx.fail(format!("after taking back {} at ply {}: {}", m.usi(), sts[i].ply, diff(&snaps[i], &o)));
            }
        } else if i % window.max(1) == 0 || window == usize::MAX || i > g.len().saturating_sub(64) || i < 64 {
            node(cx, &sts[i], &pos, false);
        }
    }
}

/// From a root: every move, then four moves that return to the position it led to, several times over; then back.
pub fn returns(root: &'static str, shuttles: usize, cycles: usize) -> Task {
    let st = St::from_sfen(root).unwrap();
    let mut v = Vec::new();
    st.legal(&mut v);
    v.sort();
    // a quiet move and the one that takes it back on the board
    fn quiet(st: &St, n: usize) -> Vec<Mv> {
        let mut v = Vec::new();
        st.legal(&mut v);
        v.retain(|&m| !m.is_drop() && !m.promo() && st.b[m.to() as usize] == 0);
        v.sort();
        // spread over the list
        let k = v.len();
        (0..n.min(k)).map(|i| v[i * k / n.min(k)]).collect()
    }
    fn legal(st: &St, m: Mv) -> bool {
        let mut v = Vec::new();
        st.legal(&mut v);
        v.contains(&m)
    }
    let back = |m: Mv| Mv::normal(m.to(), m.src(), false);
    Task {
        name: format!("every move and {cycles} returns to where it led, {shuttles} ways, from {root}"),
        n: v.len(),
        run: Box::new(move |cx, chunk, sh| {
            if sh.stopped() {
                return;
            }
            let m = v[chunk];
            let a = st.apply(m);
            let mut lines: Vec<Vec<Mv>> = vec![];
            for x in quiet(&a, shuttles) {
                let b = a.apply(x);
                for y in quiet(&b, shuttles) {
                    let c = b.apply(y);
                    if !legal(&c, back(x)) || !legal(&c.apply(back(x)), back(y)) {
                        continue;
                    }
                    let mut g = vec![m];
                    for _ in 0..cycles {
                        g.extend([x, y, back(x), back(y)]);
                    }
                    lines.push(g);
                }
            }
            for g in lines {
                let r = cx.case(&st, |cx| playline(cx, &st, &g, 0, 0, usize::MAX));
                if let Err(v) = r {
                    sh.report(v);
                }
            }
        }),
    }
}

/// Diagrams that remember a last move: every line of at most two moves from a root is played on the diagram itself
/// (`shogi_core::PartialPosition::make_move`), and a position constructed from each.
pub fn made(root: &'static str) -> Task {
    let st = St::from_sfen(root).unwrap();
    let mut v = Vec::new();
    st.legal(&mut v);
    v.sort();
    Task {
        name: format!("diagrams made by two moves from {root}"),
        n: v.len(),
        run: Box::new(move |cx, chunk, sh| {
            if sh.stopped() {
                return;
            }
            let m = v[chunk];
            let r = cx.case(&st, |cx| {
                let mut pp = imp::partial(&st);
                let n = st.apply(m);
                pp.make_move(imp::mv(m, st.side)).expect("harness: make_move");
                cx.push(m);
                cx.inc(S_::transitions, 1);
                walk(cx, &n, &mut imp::Pos::new(pp.clone()), 1, false);
                let mut w = Vec::new();
                n.legal(&mut w);
                w.sort();
                for &m2 in &w {
                    let mut qq = pp.clone();
                    qq.make_move(imp::mv(m2, n.side)).expect("harness: make_move");
                    cx.push(m2);
                    cx.inc(S_::transitions, 1);
                    node(cx, &n.apply(m2), &imp::Pos::new(qq), false);
                    cx.pop();
                }
                cx.pop();
            });
            if let Err(v) = r {
                sh.report(v);
            }
        }),
    }
}

/// Cyclic play up to the last move number that fits.
pub fn long(root: &'static str, cycle: &'static str, plies: usize, start: u16) -> Task {
    Task {
        name: format!("{plies} plies of a cycle of {} from ply {start}", cycle.split_whitespace().count()),
        n: 1,
        run: Box::new(move |cx, _, sh| {
            let mut st = St::from_sfen(root).unwrap();
            st.ply = start;
            let c = roots::moves(cycle);
            let g: Vec<Mv> = (0..plies).map(|i| c[i % c.len()]).collect();
            let r = cx.case(&st, |cx| playline(cx, &st, &g, 0, 0, 97));
            if let Err(v) = r {
                sh.report(v);
            }
        }),
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub samples: Vec<String>,
    pub per_task: Vec<(String, usize, u64, u64, f64)>,
    pub digests: Vec<(usize, usize, u64)>,
}

pub fn execute(
    tasks: &[Task],
    sh: &Shared,
    flags: u32,
    threads: usize,
    slots: Option<*mut u8>,
    keys: Option<&'static crate::keys::KeyMaps>,
    resume: &[(usize, usize)],
) -> Outcome {
    let mut list: Vec<(usize, usize)> = vec![];
    if resume.is_empty() {
        for (t, k) in tasks.iter().enumerate() {
            for c in 0..k.n {
                list.push((t, c));
            }
        }
    } else {
        list.extend_from_slice(resume);
    }
    let next = AtomicUsize::new(0);
    let merged: Mutex<(Stats, Vec<String>, Vec<(usize, usize, u64)>)> = Mutex::new((Stats::default(), vec![], vec![]));
    let per: Mutex<Vec<(usize, u64, u64, f64)>> = Mutex::new(vec![(0, 0, 0, 0.0); tasks.len()]);
    let base = slots.map(|p| p as usize);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (list, next, merged, per) = (&list, &next, &merged, &per);
            s.spawn(move || {
                let slot = base.map(|b| (b + t * SLOT) as *mut Slot);
                let mut cx = Cx::new(flags, slot);
                cx.keys = keys;
                let mut digs = vec![];
                loop {
                    if sh.stopped() {
                        break;
                    }
                    if Instant::now() > sh.deadline {
                        sh.capped.store(true, Ordering::Relaxed);
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some(&(ti, ci)) = list.get(i) else { break };
                    let t0 = Instant::now();
                    let (a, b) = (cx.stats.v[S_::states as usize], cx.stats.v[S_::transitions as usize]);
                    cx.job = tasks[ti].name.clone();
                    cx.chunk = ci;
                    cx.s().job = ti as u32;
                    cx.s().chunk = ci as u32;
                    cx.digest = 0;
                    cx.sample_budget = (ci == tasks[ti].n / 2) as u32;
                    (tasks[ti].run)(&mut cx, ci, sh);
                    if flags & C13 != 0 {
                        digs.push((ti, ci, cx.digest));
                    }
                    let mut g = per.lock().unwrap();
                    let e = &mut g[ti];
                    e.0 += 1;
                    e.1 += cx.stats.v[S_::states as usize] - a;
                    e.2 += cx.stats.v[S_::transitions as usize] - b;
                    e.3 += t0.elapsed().as_secs_f64();
                }
                cx.s().busy = 2;
                let mut g = merged.lock().unwrap();
                for i in 0..N_STAT {
                    if STAT_NAMES[i].starts_with("max_") {
                        g.0.v[i] = g.0.v[i].max(cx.stats.v[i]);
                    } else {
                        g.0.v[i] += cx.stats.v[i];
                    }
                }
                g.1.append(&mut cx.samples);
                g.2.append(&mut digs);
            });
        }
    });
    let (stats, mut samples, mut digests) = merged.into_inner().unwrap();
    samples.sort();
    digests.sort();
    let per = per.into_inner().unwrap();
    let per_task = per.iter().enumerate().map(|(i, p)| (tasks[i].name.clone(), p.0, p.1, p.2, p.3)).collect();
    Outcome { stats, samples, per_task, digests }
}

pub fn deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
