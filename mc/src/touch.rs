//! C20: call everything and compare nothing. Meant to run under something that watches the memory accesses:
//! Miri, AddressSanitizer, debug assertions.

use crate::cx::*;
use crate::engine::*;
use crate::fam::*;
use crate::imp::{self, Pos};
use crate::model::*;
use crate::mon::*;
use crate::roots;
use shogi_core::{Move, Piece, Square};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The number a value is stored as, read from memory: the compiler may believe that it is never out of range.
fn raw_sq(s: &Square) -> u8 {
    assert!(std::mem::size_of::<Square>() == 1);
    unsafe { std::ptr::read_volatile(s as *const Square as *const u8) }
}
fn raw_piece(p: &Piece) -> u8 {
    assert!(std::mem::size_of::<Piece>() == 1);
    unsafe { std::ptr::read_volatile(p as *const Piece as *const u8) }
}
pub fn bad_move(m: &Move) -> Option<String> {
    match m {
        Move::Normal { from, to, .. } => {
            let (a, b) = (raw_sq(from), raw_sq(to));
            (a == 0 || a > 81 || b == 0 || b > 81).then(|| format!("a move from square number {a} to square number {b}"))
        }
        Move::Drop { piece, to } => {
            let (a, b) = (raw_piece(piece), raw_sq(to));
            let kind = a & 15;
            (kind == 0 || kind > 14 || a > 31 || b == 0 || b > 81).then(|| format!("a drop of piece number {a} on square number {b}"))
        }
    }
}
/// Every query, on every listed move.
pub fn everything(cx: &mut Cx, pos: &Pos) {
    let l = pos.legal_moves();
    for m in l.iter() {
        if let Some(t) = bad_move(m) {
            cx.fail(format!("lists {t}"));
        }
    }
    for s in 0..81 {
        if let Some(p) = pos.piece_at(imp::tab().sq[s]) {
            let n = raw_piece(&p);
            if n & 15 == 0 || n & 15 > 14 || n > 31 {
                cx.fail(format!("piece_at() returns piece number {n}"));
            }
        }
    }
    let o = obs(pos);
    // (a clone copies the whole history)
    let k = if cx.s().path_len < 200 { pos.clone().key() } else { 0 };
    cx.digest = cx.digest.wrapping_add(mix(o.moves ^ o.preds ^ o.key ^ k));
}
/// Every move value there is, legal or not, given to the calls that take one. A panic is an answer.
pub fn any_moves(cx: &mut Cx, st: &St) {
    let pos = imp::build(st);
    let mut all: Vec<Move> = vec![];
    for a in 0..81u8 {
        for b in 0..81u8 {
            for p in [false, true] {
                all.push(imp::mv(Mv::normal(a, b, p), 0));
            }
        }
        for side in 0..2 {
            for k in 1..=14usize {
                all.push(Move::Drop { piece: imp::tab().piece[mk(k as u8, side) as usize].unwrap(), to: imp::tab().sq[a as usize] });
            }
        }
    }
    for m in all {
        cx.s().seq += 1;
        let _ = catch_unwind(AssertUnwindSafe(|| pos.is_check_move(m)));
        let mut c = pos.clone();
        if catch_unwind(AssertUnwindSafe(|| c.do_move(m))).is_ok() {
            let _ = catch_unwind(AssertUnwindSafe(|| c.undo_move(m)));
        }
        // taking back what was never played
        let mut c = pos.clone();
        let _ = catch_unwind(AssertUnwindSafe(|| c.undo_move(m)));
        cx.inc(S_::transitions, 1);
    }
}
pub fn any_task() -> Task {
    Task {
        name: "every move value, legal or not, in every seed position".into(),
        n: roots::SEEDS.len(),
        run: Box::new(move |cx, c, sh| {
            let st = St::from_sfen(roots::SEEDS[c]).unwrap();
            if let Err(v) = cx.case(&st, |cx| any_moves(cx, &st)) {
                sh.report(v);
            }
        }),
    }
}

/// The complete families the interpreter can afford: (part name, positions, depth).
pub fn miri_parts(thorough: bool) -> Vec<(String, Vec<St>, u32)> {
    let mut out: Vec<(String, Vec<St>, u32)> = vec![];
    let mut fam = |f: Fam, d: u32, what: &str, keep: &dyn Fn(&St) -> bool| {
        let mut v = vec![];
        for c in 0..f.chunks() {
            f.run(c, &mut |st| {
                if keep(st) {
                    v.push(*st);
                }
            });
        }
        out.push((format!("{}{what} depth {d}", f.name()), v, d));
    };
    let one = |bk: u8, wk: u8| Fam::Kings1 { bk: vec![bk], wk: vec![wk], hands: Hands::None };
    // every piece on every square; the short version has one piece of each way of moving, of the player to move
    let third = |st: &St| st.b.iter().copied().find(|&p| p != 0 && kind(p) != K);
    if thorough {
        fam(one(sq(5, 9), sq(5, 1)), 1, "", &|_| true);
        fam(one(sq(9, 5), sq(1, 6)), 0, "", &|_| true);
        fam(one(sq(2, 8), 81), 0, "", &|_| true);
        fam(Fam::HandCounts { board: vec!["4k4/9/9/9/9/9/9/9/4K4 b - 1"] }, 0, "", &|_| true);
        fam(Fam::Captures { squares: vec![sq(5, 5), sq(1, 2), sq(9, 8)] }, 1, "", &|_| true);
        fam(Fam::Ray { kinds: vec![L, B, R], squares: vec![sq(5, 5)], own: false }, 0, "", &|_| true);
    } else {
        fam(one(sq(5, 9), sq(5, 1)), 0, " nine ways of moving, own piece", &|st| {
            third(st).is_none_or(|p| p >> 4 == st.side && matches!(kind(p), P | L | N | S | G | B | R | UM | RY))
        });
    }
    for s in roots::SEEDS {
        let st = St::from_sfen(s).unwrap();
        let mut l = vec![];
        st.legal(&mut l);
        let d = if thorough && l.len() < 300 || l.len() < 40 {
            1
        } else if l.len() < 300 {
            PLAY
        } else {
            0
        };
        out.push((format!("seed, depth {d}"), vec![st], d));
    }
    // more moves than the list holds: the panic is fine, a write past the end is not
    out.push(("too many moves".into(), vec![St::from_sfen(roots::MAXNOKING).unwrap()], 0));
    out
}

/// What the shared code of all backends does in rarer situations (checks, double checks, pins, pawn drops before a king,
/// files with pawns): for the interpreter on one backend.
pub fn miri_shared(thorough: bool) -> Vec<(String, Vec<St>, u32)> {
    let mut out: Vec<(String, Vec<St>, u32)> = vec![];
    let mut fam = |f: Fam, what: &str, keep: &dyn Fn(&St) -> bool| {
        let mut v = vec![];
        for c in 0..f.chunks() {
            f.run(c, &mut |st| {
                if keep(st) {
                    v.push(*st);
                }
            });
        }
        out.push((format!("{}{what} depth 0", f.name()), v, 0));
    };
    let (at, far) = (if thorough { vec![sq(5, 5), sq(1, 9), sq(9, 2)] } else { vec![sq(5, 5)] }, sq(8, 3));
    for &k in &at {
        for (bk, wk) in [(k, far), (far, k)] {
            fam(Fam::Kings1 { bk: vec![bk], wk: vec![wk], hands: Hands::Both }, " in check", &|st| st.in_check());
        }
    }
    let men = |st: &St, k: u8, side: u8| -> Vec<u8> { (0..81u8).filter(|&s| s != k && st.b[s as usize] != 0 && kind(st.b[s as usize]) != K && color(st.b[s as usize]) == side).collect() };
    fam(
        Fam::Rel2 { subj: at.clone(), others: vec![far], alpha: [L, N, B, R, UM, RY].iter().flat_map(|&p| [mk(p, 0), mk(p, 1)]).collect(), hands: Hands::None },
        " double checks",
        &|st| {
            let Some(k) = st.king(st.side) else { return false };
            let m = men(st, k, 1 - st.side);
            let dist = |s: u8| (file(s) - file(k)).abs().max((rank(s) - rank(k)).abs());
            at.contains(&k) && m.len() == 2 && (thorough || m.iter().all(|&s| dist(s) == 2)) && m.iter().all(|&s| {
                let mut x = *st;
                x.b[s as usize] = 0;
                x.in_check()
            })
        },
    );
    fam(Fam::Pins { subj: at.clone() }, " one pin", &|st| {
        let near = |s: u8| at.iter().any(|&k| (file(s) - file(k)).abs().max((rank(s) - rank(k)).abs()) <= 2);
        let there: Vec<u8> = (0..81u8).filter(|&s| st.b[s as usize] != 0).collect();
        there.len() == 4 && (thorough || there.iter().filter(|&&s| near(s)).count() == 3
            && st.king(st.side).is_some_and(|k| at.contains(&k)))
    });
    fam(Fam::Uchi { subj: vec![sq(5, 1), sq(1, 1)], supports: 1, extras: false }, "", &|_| true);
    fam(Fam::PawnSets, " one rank", &|st| {
        let own: Vec<i8> = men(st, 81, st.side).into_iter().filter(|&s| kind(st.b[s as usize]) == P).map(rank).collect();
        own.len() > 6 && own.iter().all(|&r| r == own[0] && (thorough || r == 5)) && men(st, 81, 1 - st.side).is_empty()
    });
    out
}

/// Depth number: play every move and take it back, query nothing in between.
const PLAY: u32 = 9;
/// One case the way the interpreter runs it: the library's own list of moves drives the walk, and every
/// query is called, with as little as possible besides.
pub fn deep(cx: &mut Cx, pos: &mut Pos, depth: u32) {
    cx.inc(S_::states, 1);
    let l = pos.legal_moves();
    let mut d = 0u64;
    for m in l.iter() {
        if let Some(t) = bad_move(m) {
            cx.fail(format!("lists {t}"));
        }
        d += pos.is_check_move(*m) as u64;
    }
    d = d.wrapping_add(pos.key()).wrapping_add(pos.keys().0).wrapping_add(pos.in_check() as u64 + pos.ply() as u64);
    for s in Square::all() {
        d = d.wrapping_add(pos.piece_at(s).map_or(0, |p| raw_piece(&p)) as u64);
    }
    d = d.wrapping_add((pos.hand(pos.side_to_move()) != pos.hand(pos.side_to_move().flip())) as u64);
    cx.digest = cx.digest.wrapping_add(d);
    if depth == 0 {
        return;
    }
    for m in l {
        if depth == PLAY {
            pos.do_move(m);
            cx.inc(S_::transitions, 1);
            pos.undo_move(m);
            continue;
        }
        pos.do_move(m);
        cx.inc(S_::transitions, 1);
        deep(cx, pos, depth - 1);
        pos.undo_move(m);
    }
}
/// `mc touch-list TIER`: the cases for the interpreter, "depth sfen" each.
pub fn list(thorough: bool, shared: bool) {
    for (name, v, d) in if shared { miri_shared(thorough) } else { miri_parts(thorough) } {
        println!("# {} {name}", v.len());
        for st in v {
            println!("{d} {}", st.sfen());
        }
    }
}
/// `mc touch`: the cases on standard input. Prints where it is.
pub fn run() {
    let mut cx = Cx::new(TOUCH, None);
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let (d, sfen) = l.split_once(' ').unwrap();
        println!("CASE {l}");
        let st = St::from_sfen(sfen).unwrap();
        let r = cx.case(&st, |cx| {
            let mut pos = imp::build(&st);
            deep(cx, &mut pos, d.parse().unwrap());
        });
        if let Err(e) = r {
            println!("BAD {}", e.msg);
            std::process::exit(1);
        }
    }
    println!("TOTAL {} {} {}", cx.stats.v[S_::cases as usize], cx.stats.v[S_::states as usize], cx.stats.v[S_::transitions as usize]);
}
