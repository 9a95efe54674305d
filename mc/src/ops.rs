//! C15: every short program over several positions and their clones.

use crate::cx::*;
use crate::engine::*;
use crate::fam::*;
use crate::imp::{self, Pos};
use crate::model::*;
use crate::mon::*;
use crate::roots;
use std::cell::RefCell;
use std::collections::HashMap;

/// What every query must answer, from the model; the keys from a position constructed afresh.
#[derive(Clone, PartialEq)]
struct Want {
    n: u32,
    moves: u64,
    preds: u64,
    chk: bool,
    keys: (u64, u64),
    list: Vec<Mv>,
}
thread_local! { static MEMO: RefCell<HashMap<St, std::rc::Rc<Want>>> = RefCell::new(HashMap::new()); }

fn want(st: &St) -> std::rc::Rc<Want> {
    if let Some(w) = MEMO.with(|m| m.borrow().get(st).cloned()) {
        return w;
    }
    let mut l = Vec::new();
    st.legal(&mut l);
    l.sort();
    let (mut a, mut b) = (0u64, 0u64);
    for &m in &l {
        a = a.wrapping_add(mix(m.0 as u64));
        b = b.wrapping_add(mix(m.0 as u64 ^ PRED ^ ((st.apply(m).in_check() as u64) << 40)));
    }
    let w = std::rc::Rc::new(Want {
        n: l.len() as u32,
        moves: a,
        preds: b,
        chk: st.in_check(),
        keys: imp::build(st).keys(),
        list: l,
    });
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 200_000 {
            m.clear();
        }
        m.insert(*st, w.clone())
    });
    w
}
fn q_moves(cx: &Cx, who: &str, st: &St, pos: &Pos) {
    let w = want(st);
    let l = lists(pos, st.side);
    if (l.0, l.1) != (w.n, w.moves) {
        cx.fail(format!("{who} lists {} moves instead of {} in `{}`", l.0, w.n, st.sfen()));
    }
    if l.2 != w.preds {
        cx.fail(format!("{who} gives wrong check predictions in `{}`", st.sfen()));
    }
}
fn q_rest(cx: &Cx, who: &str, st: &St, pos: &Pos) {
    let w = want(st);
    let r = imp::read(pos);
    if r != *st {
        cx.fail(format!("{who} should be `{}` but reads `{}`", st.sfen(), r.sfen()));
    }
    if pos.in_check() != w.chk || pos.keys() != w.keys || pos.key() != w.keys.0 ^ w.keys.1 {
        cx.fail(format!("{who} has the wrong check status or keys in `{}`", st.sfen()));
    }
}

struct P1 {
    pos: Pos,
    st: St,
    hist: Vec<(Mv, St)>,
}
impl P1 {
    fn new(st: &St) -> P1 {
        P1 { pos: imp::build(st), st: *st, hist: vec![] }
    }
    fn play(&mut self, which: usize) -> bool {
        let w = want(&self.st);
        if w.list.is_empty() {
            return false;
        }
        // first: the last move by number (drops come last); second: a capture or promotion if there is one
        let m = match which {
            0 => *w.list.last().unwrap(),
            _ => *w
                .list
                .iter()
                .find(|m| !m.is_drop() && (m.promo() || self.st.b[m.to() as usize] != 0))
                .unwrap_or(&w.list[0]),
        };
        self.pos.do_move(imp::mv(m, self.st.side));
        self.hist.push((m, self.st));
        self.st = self.st.apply(m);
        true
    }
    fn back(&mut self) -> bool {
        let Some((m, st)) = self.hist.pop() else { return false };
        self.pos.undo_move(imp::mv(m, st.side));
        self.st = st;
        true
    }
    fn dup(&self) -> P1 {
        P1 { pos: self.pos.clone(), st: self.st, hist: self.hist.clone() }
    }
}
const OPS: usize = 16;
/// Run one program; false when a step is not applicable (then its extensions are not new programs either).
fn program(cx: &mut Cx, ra: &St, rb: &St, code: &[usize]) -> bool {
    let mut a = P1::new(ra);
    let mut b = P1::new(rb);
    let mut c: Option<P1> = None;
    for &o in code {
        cx.s().seq += 1;
        let ok = match o {
            0 => a.play(0),
            1 => a.play(1),
            2 => a.back(),
            3 => b.play(0),
            4 => b.play(1),
            5 => b.back(),
            6 => {
                c = Some(a.dup());
                true
            }
            7 => {
                c = Some(b.dup());
                true
            }
            8 => c.as_mut().is_some_and(|c| c.play(0)),
            9 => c.as_mut().is_some_and(|c| c.play(1)),
            10 => c.as_mut().is_some_and(|c| c.back()),
            11 => {
                q_moves(cx, "A", &a.st, &a.pos);
                true
            }
            12 => {
                q_rest(cx, "B", &b.st, &b.pos);
                q_moves(cx, "B", &b.st, &b.pos);
                true
            }
            // overwrite the clone, re-using what it holds
            13 | 14 => match c.as_mut() {
                Some(c) => {
                    let from = if o == 13 { &a } else { &b };
                    c.pos.clone_from(&from.pos);
                    c.st = from.st;
                    c.hist.clone_from(&from.hist);
                    true
                }
                None => false,
            },
            _ => match c.as_mut() {
                Some(c) => {
                    std::mem::swap(&mut a, c);
                    true
                }
                None => false,
            },
        };
        if !ok {
            return false;
        }
        cx.inc(S_::transitions, 1);
    }
    let n = code.len() % 2;
    for i in 0..3 {
        let (who, p) = match (i + n) % 3 {
            0 => ("A", Some(&a)),
            1 => ("B", Some(&b)),
            _ => ("C", c.as_ref()),
        };
        if let Some(p) = p {
            q_rest(cx, who, &p.st, &p.pos);
            q_moves(cx, who, &p.st, &p.pos);
            q_rest(cx, who, &p.st, &p.pos);
            cx.inc(S_::comparisons, 1);
        }
    }
    cx.inc(S_::states, 1);
    true
}
fn rec(cx: &mut Cx, ra: &St, rb: &St, code: &mut Vec<usize>, left: usize) {
    if !program(cx, ra, rb, code) || left == 0 {
        return;
    }
    for o in 0..OPS {
        code.push(o);
        rec(cx, ra, rb, code, left - 1);
        code.pop();
    }
}

/// 100 + i: the placement of root i with the hands exchanged.
const PAIRS: &[(usize, usize)] = &[(0, 0), (1, 6), (4, 1), (3, 2), (9, 8), (1, 101)];

pub fn programs(len: usize) -> Task {
    Task {
        name: format!("every program of at most {len} of {OPS} operations on two positions and a clone, {} pairs of roots, one operation less for unrelated roots", PAIRS.len()),
        n: PAIRS.len() * OPS * OPS,
        run: Box::new(move |cx, chunk, sh| {
            let (i, j) = PAIRS[chunk / (OPS * OPS)];
            let (ra, mut rb) = (St::from_sfen(roots::SEEDS[i]).unwrap(), St::from_sfen(roots::SEEDS[j % 100]).unwrap());
            if j > 99 {
                rb.h.swap(0, 1);
                assert!(rb.h != ra.h && rb.legal_position(), "harness: pair of roots");
            }
            if i == j {
                // the same placement with the move number as the only difference
                rb.ply += 6;
            }
            let mut code = vec![chunk / OPS % OPS, chunk % OPS];
            let r = cx.case(&ra, |cx| {
                if chunk % OPS == 0 {
                    program(cx, &ra, &rb, &code[..1]);
                }
                // one step less for the pairs that have nothing in common
                rec(cx, &ra, &rb, &mut code, if i == j % 100 { len - 2 } else { len - 3 })
            });
            if let Err(mut v) = r {
                v.msg = format!("program {:?} on A=`{}` B=`{}`: {}", code, ra.sfen(), rb.sfen(), v.msg);
                sh.report(v);
            }
        }),
    }
}

/// Positions in which the answer about a pawn drop in front of a king changes with almost every move.
fn touchy(every: usize) -> Vec<St> {
    let mut v = vec![];
    let mut i = 0usize;
    let f = Fam::UchiPin { subj: vec![sq(5, 5), sq(1, 3), sq(9, 8)], capturers: vec![G, B, RY, N], box_with: 1 };
    for c in 0..f.chunks() {
        f.run(c, &mut |st| {
            let k = st.king(1 - st.side).unwrap();
            let fr = front_of(k, 1 - st.side).unwrap();
            if st.drop_mate(Mv::drop(P, fr)) {
                i += 1;
                if i % (every * 8) == 0 {
                    // a far king for the attacker and a pawn for either side
                    for far in [sq(9, 1), sq(1, 9), sq(9, 9), sq(1, 1)] {
                        let mut x = *st;
                        if x.b[far as usize] == 0 {
                            x.b[far as usize] = mk(K, x.side);
                            x.h[1 - x.side as usize][P as usize] += 1;
                            if x.legal_position() && !x.in_check() {
                                v.push(x);
                                break;
                            }
                        }
                    }
                }
            }
        });
    }
    v
}

/// Clones of one position, one per legal move, all alive at once: every ordered pair of them is queried one
/// after the other; then the same after each clone's first reply.
pub fn clones(every: usize) -> Task {
    let mut p: Vec<St> = roots::SEEDS.iter().map(|s| St::from_sfen(s).unwrap()).collect();
    p.extend(touchy(every));
    let n = p.len();
    Task {
        name: format!("{n} positions, every pair of moves played in two clones and queried alternately"),
        n,
        run: Box::new(move |cx, i, sh| {
            let r = cx.case(&p[i], |cx| {
                let root = P1::new(&p[i]);
                q_moves(cx, "the original", &root.st, &root.pos);
                let list = want(&root.st).list.clone();
                // (with very many moves, a few of each destination are enough)
                let step = list.len() / 120 + 1;
                let mut all: Vec<P1> = vec![];
                for &m in list.iter().step_by(step) {
                    let mut c = root.dup();
                    c.pos.do_move(imp::mv(m, c.st.side));
                    c.hist.push((m, c.st));
                    c.st = c.st.apply(m);
                    all.push(c);
                    cx.inc(S_::transitions, 1);
                }
                for round in 0..2 {
                    for a in 0..all.len() {
                        for b in 0..all.len() {
                            q_moves(cx, "a clone", &all[a].st, &all[a].pos);
                            q_moves(cx, "another clone", &all[b].st, &all[b].pos);
                            cx.inc(S_::comparisons, 2);
                            cx.s().seq += 1;
                        }
                        q_rest(cx, "a clone", &all[a].st, &all[a].pos);
                    }
                    q_moves(cx, "the original", &root.st, &root.pos);
                    q_rest(cx, "the original", &root.st, &root.pos);
                    cx.inc(S_::states, all.len() as u64);
                    if round == 0 {
                        all.retain_mut(|c| c.play(0));
                        cx.inc(S_::transitions, all.len() as u64);
                    }
                }
                for mut c in all {
                    while c.back() {}
                    q_moves(cx, "a clone taken back", &c.st, &c.pos);
                }
            });
            if let Err(v) = r {
                sh.report(v);
            }
        }),
    }
}

fn pool(n: usize) -> Vec<St> {
    let mut v: Vec<St> = roots::SEEDS.iter().map(|s| St::from_sfen(s).unwrap()).collect();
    for g in 0..n as u64 {
        let root = v[g as usize % 3];
        let mut st = root;
        let line = roots::game(1000 + g, &root, 20 + 13 * g as usize % 90);
        for &m in &line {
            st = st.apply(m);
        }
        v.push(st);
        // close relatives: same board with other hands, the image, one piece changed
        let mut x = st;
        x.h = [[0; 8]; 2];
        v.push(x);
        v.push(st.rotated());
        let mut x = st;
        x.ply += 100;
        x.side ^= 1;
        v.push(x);
        for s in 0..81 {
            let p = st.b[s];
            if p != 0 && kind(p) != K {
                let mut x = st;
                x.b[s] = 0;
                v.push(x);
                if s % 3 == 0 {
                    break;
                }
            }
        }
    }
    // the same king on the same cell with the same move number: mate by a pawn drop, and not
    for t in touchy(200 / n) {
        v.push(t);
        let k = t.king(1 - t.side).unwrap();
        for s in 0..81u8 {
            if t.b[s as usize] != 0 && s != k && (file(s) - file(k)).abs() <= 1 && (rank(s) - rank(k)).abs() <= 1 {
                let mut x = t;
                x.b[s as usize] = 0;
                v.push(x);
                break;
            }
        }
    }
    v.retain(|s| s.legal_position());
    v.dedup();
    v
}

/// All pairs and triples from a pool: query one, then the others, then the first again.
pub fn interleave(n: usize, triple: bool) -> Task {
    let p = pool(n);
    let k = p.len();
    Task {
        name: format!("every {} of {k} positions queried alternately", if triple { "triple" } else { "pair" }),
        n: k,
        run: Box::new(move |cx, i, sh| {
            for j in 0..k {
                let r = cx.case(&p[i], |cx| {
                    let (a, b) = (imp::build(&p[i]), imp::build(&p[j]));
                    let check = |cx: &Cx, who: &str, st: &St, q: &Pos| {
                        q_moves(cx, who, st, q);
                        q_rest(cx, who, st, q);
                    };
                    check(cx, "first", &p[i], &a);
                    check(cx, "second", &p[j], &b);
                    check(cx, "first, again,", &p[i], &a);
                    // play in one, ask the other
                    let mut x = P1::new(&p[i]);
                    if x.play(j % 2) {
                        check(cx, "second, after a move in the first,", &p[j], &b);
                        check(cx, "the first after its move", &x.st, &x.pos);
                        x.back();
                        check(cx, "the first after its take-back", &x.st, &x.pos);
                        check(cx, "second, after a take-back in the first,", &p[j], &b);
                    }
                    cx.inc(S_::states, 1);
                    cx.inc(S_::comparisons, 3);
                    if triple {
                        for l in 0..k {
                            let c = imp::build(&p[l]);
                            q_moves(cx, "third", &p[l], &c);
                            q_moves(cx, "first, after a third,", &p[i], &a);
                            q_moves(cx, "second, after a third,", &p[j], &b);
                            cx.inc(S_::states, 1);
                            cx.inc(S_::comparisons, 3);
                        }
                    }
                });
                if let Err(v) = r {
                    sh.report(v);
                    return;
                }
            }
        }),
    }
}
