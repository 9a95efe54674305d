//! Monitors: what is compared at a state, and the walk over moves and take-backs.

use crate::cx::*;
use crate::imp::{self, Pos};
use crate::model::*;

pub const C01: u32 = 1 << 1;
pub const C02: u32 = 1 << 2;
pub const C03: u32 = 1 << 3;
pub const C04: u32 = 1 << 4;
pub const C05: u32 = 1 << 5;
pub const C06: u32 = 1 << 6;
pub const C07: u32 = 1 << 7;
pub const C08: u32 = 1 << 8;
pub const C09: u32 = 1 << 9;
pub const C10: u32 = 1 << 10;
pub const C11: u32 = 1 << 11;
pub const C12: u32 = 1 << 12;
pub const C13: u32 = 1 << 13;
pub const C14: u32 = 1 << 14;
pub const C15: u32 = 1 << 15;
pub const C17: u32 = 1 << 17;
pub const C19: u32 = 1 << 19;
/// Call everything, compare nothing: for runs under a checker that watches the memory accesses.
pub const TOUCH: u32 = 1 << 20;

/// Every public answer of a position, the two lists condensed order-independently.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub st: St,
    pub keys: (u64, u64),
    pub key: u64,
    pub chk: bool,
    pub n: u32,
    pub moves: u64,
    pub preds: u64,
}
pub const PRED: u64 = 0xabcd_ef01_2345_6789;

pub fn lists(pos: &Pos, side: u8) -> (u32, u64, u64) {
    let l = pos.legal_moves();
    let (mut a, mut b) = (0u64, 0u64);
    for &m in l.iter() {
        let id = imp::unmv(m, side).map_or(0xffff_ffff, |x| x.0 as u64);
        a = a.wrapping_add(mix(id));
        b = b.wrapping_add(mix(id ^ PRED ^ ((pos.is_check_move(m) as u64) << 40)));
    }
    (l.len() as u32, a, b)
}
pub fn obs(pos: &Pos) -> Obs {
    let st = imp::read(pos);
    let (n, moves, preds) = lists(pos, st.side);
    Obs { keys: pos.keys(), key: pos.key(), chk: pos.in_check(), n, moves, preds, st }
}
pub fn diff(a: &Obs, b: &Obs) -> String {
    let mut v = vec![];
    if a.st != b.st {
        v.push(format!("position `{}` became `{}`", a.st.sfen(), b.st.sfen()));
    }
    if a.keys != b.keys || a.key != b.key {
        v.push(format!("keys {:x?}/{:x} became {:x?}/{:x}", a.keys, a.key, b.keys, b.key));
    }
    if a.chk != b.chk {
        v.push(format!("in_check {} became {}", a.chk, b.chk));
    }
    if (a.n, a.moves) != (b.n, b.moves) {
        v.push(format!("legal moves changed ({} before, {} after)", a.n, b.n));
    }
    if a.preds != b.preds {
        v.push("check predictions changed".into());
    }
    v.join("; ")
}

fn names(v: &[Mv]) -> String {
    let mut t: Vec<String> = v.iter().map(|m| m.usi()).collect();
    t.sort();
    t.join(" ")
}

/// Compare the library's list with the model's, for the moves `pick` selects.
/// `sound` and `complete` select the two directions.
fn compare(cx: &mut Cx, st: &St, pos: &Pos, sound: bool, complete: bool, pick: impl Fn(&St, Mv) -> bool) {
    let mut want = cx.take();
    st.legal(&mut want);
    let g = cx.next_gen();
    let mut wanted = 0u32;
    for &m in &want {
        if pick(st, m) {
            cx.stamp[m.idx()] = g;
            wanted += 1;
        }
    }
    let l = pos.legal_moves();
    let mut got = 0u32;
    for &m in l.iter() {
        match imp::unmv(m, st.side) {
            None => {
                if sound {
                    cx.fail(format!("lists {m:?}, which is not a move of the player to move"));
                }
            }
            Some(x) => {
                if cx.stamp[x.idx()] == g {
                    if cx.stamp2[x.idx()] != g {
                        cx.stamp2[x.idx()] = g;
                        got += 1;
                    }
                } else if sound && pick(st, x) {
                    cx.fail(format!("lists the illegal move {}", x.usi()));
                }
            }
        }
    }
    if complete && got != wanted {
        let missing: Vec<Mv> =
            want.iter().copied().filter(|&m| cx.stamp[m.idx()] == g && cx.stamp2[m.idx()] != g).collect();
        cx.fail(format!("does not list the legal move(s) {}", names(&missing)));
    }
    cx.inc(S_::comparisons, 1);
    cx.inc(S_::moves_listed, wanted as u64);
    cx.max(S_::max_list, l.len() as u64);
    cx.give(want);
}

fn vacuity(cx: &mut Cx, st: &St) {
    cx.inc(S_::states, 1);
    let k = st.king(st.side);
    if k.is_none() || st.king(1 - st.side).is_none() {
        cx.inc(S_::positions_without_a_king, 1);
    }
    if let Some(k) = k {
        if st.attacked(k, 1 - st.side) {
            cx.inc(S_::in_check, 1);
        }
    }
}

fn slider(st: &St, m: Mv) -> bool {
    !m.is_drop() && matches!(kind(st.b[m.src() as usize]), L | B | R | UM | RY)
}

/// Check one state: `pos` is claimed to be `st`.
pub fn node(cx: &mut Cx, st: &St, pos: &Pos, fresh: bool) {
    let f = cx.flags;
    vacuity(cx, st);
    if f & (C01 | C02) != 0 {
        compare(cx, st, pos, f & C01 != 0, f & C02 != 0, |_, _| true);
    }
    if f & C03 != 0 {
        let g = cx.next_gen();
        let l = pos.legal_moves();
        for &m in l.iter() {
            // a drop of the wrong colour is C01's business; here only repetition counts
            let Some(x) = imp::unmv(m, st.side) else { continue };
            if cx.stamp[x.idx()] == g {
                cx.fail(format!("lists {} twice", x.usi()));
            }
            cx.stamp[x.idx()] = g;
        }
        cx.inc(S_::comparisons, 1);
        cx.inc(S_::moves_listed, l.len() as u64);
        cx.max(S_::max_list, l.len() as u64);
    }
    if f & C04 != 0 {
        compare(cx, st, pos, true, true, |_, m| m.is_drop());
        uchi_stats(cx, st);
    }
    if f & C05 != 0 && st.in_check() {
        compare(cx, st, pos, true, true, |_, _| true);
        let n = st.attackers_naive(st.king(st.side).unwrap(), 1 - st.side);
        cx.inc(S_::double_check, (n > 1) as u64);
        let empty = pos.legal_moves().is_empty();
        cx.inc(S_::mates, empty as u64);
    }
    if f & C06 != 0 {
        let w = st.in_check();
        if pos.in_check() != w {
            cx.fail(format!("in_check() is {}, but the king {} attacked", !w, if w { "is" } else { "is not" }));
        }
        cx.inc(S_::comparisons, 1);
    }
    if f & C07 != 0 {
        let mut want = cx.take();
        st.legal(&mut want);
        for &m in &want {
            let n = st.apply(m);
            let w = n.in_check();
            if pos.is_check_move(imp::mv(m, st.side)) != w {
                cx.fail(format!(
                    "is_check_move({}) is {}, but after the move the king {} attacked",
                    m.usi(),
                    !w,
                    if w { "is" } else { "is not" }
                ));
            }
            if w {
                cx.inc(S_::checking_moves, 1);
                let k = n.king(n.side).unwrap();
                let mut direct = false;
                n.targets(m.to(), |t| direct |= t == k);
                cx.inc(S_::discovered_checks, !direct as u64);
            }
        }
        cx.inc(S_::comparisons, want.len() as u64);
        cx.give(want);
    }
    if f & C08 != 0 && !fresh || f & C17 != 0 {
        let r = imp::read(pos);
        if r != *st {
            cx.fail(format!("the position should be `{}` but reads `{}`", st.sfen(), r.sfen()));
        }
        cx.inc(S_::comparisons, 1);
    }
    if f & C10 != 0 && !fresh {
        let q = imp::build(st);
        let (a, b) = (lists(&q, st.side), lists(pos, st.side));
        if q.in_check() != pos.in_check() || a != b {
            cx.fail(format!(
                "fresh `{}`: check {}, {} moves {:x}, predictions {:x}; reached by play: check {}, {} moves {:x}, predictions {:x}",
                st.sfen(), q.in_check(), a.0, a.1, a.2, pos.in_check(), b.0, b.1, b.2
            ));
        }
        cx.inc(S_::comparisons, 1);
    }
    if f & C11 != 0 {
        let (k0, k1) = pos.keys();
        if pos.key() != k0 ^ k1 {
            cx.fail(format!("key() {:x} is not the exclusive-or of {:x} and {:x}", pos.key(), k0, k1));
        }
        let mut other = *st;
        other.ply = if st.ply < 40000 { st.ply + 40 + (st.ply & 1) } else { 1 };
        let q = imp::build(&other);
        if q.keys() != (k0, k1) {
            cx.fail(format!(
                "keys {:x?} differ from {:x?} of the same position constructed afresh (with another move number)",
                (k0, k1),
                q.keys()
            ));
        }
        cx.inc(S_::comparisons, 1);
    }
    if f & C12 != 0 {
        crate::keys::node(cx, st, pos);
    }
    if f & C13 != 0 {
        let o = obs(pos);
        let mut d = mix(o.moves ^ o.preds.rotate_left(17));
        d = mix(d ^ o.keys.0 ^ o.keys.1.rotate_left(1) ^ o.key.rotate_left(2));
        d = mix(d ^ (o.chk as u64) ^ ((o.n as u64) << 8));
        for &c in o.st.b.iter().chain(o.st.h.iter().flatten()) {
            d = d.wrapping_mul(0x100_0000_01b3) ^ c as u64;
        }
        d = mix(d ^ ((o.st.ply as u64) << 1) ^ o.st.side as u64);
        // position inside the case matters, order of cases does not
        let at = cx.s().path_len as u64;
        cx.digest = cx.digest.wrapping_add(mix(d ^ at << 56));
        cx.inc(S_::comparisons, 1);
    }
    if f & C14 != 0 {
        image(cx, st, pos, &st.rotated(), Mv::rotated, "rotated, colours exchanged");
        image(cx, st, pos, &st.mirrored(), Mv::mirrored, "mirrored");
    }
    if f & C15 != 0 {
        // queries twice, in two orders
        let a = obs(pos);
        let p = lists(pos, a.st.side);
        let k = pos.keys();
        let c = pos.in_check();
        let b = obs(pos);
        if a != b || p != (a.n, a.moves, a.preds) || k != a.keys || c != a.chk {
            cx.fail(format!("repeated queries answer differently: {}", diff(&a, &b)));
        }
        cx.inc(S_::comparisons, 1);
    }
    if f & C19 != 0 {
        compare(cx, st, pos, true, true, slider);
        let w = st.in_check();
        if pos.in_check() != w {
            cx.fail(format!("in_check() is {} behind or beyond a blocker", !w));
        }
    }
    if f & TOUCH != 0 {
        crate::touch::everything(cx, pos);
    }
}

fn uchi_stats(cx: &mut Cx, st: &St) {
    let c = st.side;
    if st.h[c as usize][P as usize] == 0 {
        return;
    }
    let Some(k) = st.king(1 - c) else { return };
    let Some(t) = at(file(k), rank(k) + if c == 0 { 1 } else { -1 }) else { return };
    if st.b[t as usize] != 0 || dead(P, c, t) || (0..9).any(|r| st.b[(t / 9 * 9 + r) as usize] == mk(P, c)) {
        return;
    }
    let m = Mv::drop(P, t);
    if st.safe(m) {
        if st.drop_mate(m) {
            cx.inc(S_::pawn_drop_mates_refused, 1);
        } else {
            cx.inc(S_::pawn_drop_checks_offered, 1);
        }
    }
}

fn image(cx: &mut Cx, st: &St, pos: &Pos, im: &St, map: fn(Mv) -> Mv, what: &str) {
    let q = imp::build(im);
    if q.in_check() != pos.in_check() {
        cx.fail(format!("in_check() is {} but {} on the board {what}: `{}`", pos.in_check(), q.in_check(), im.sfen()));
    }
    let l = pos.legal_moves();
    let g = cx.next_gen();
    let mut n = 0;
    for &m in l.iter() {
        let Some(x) = imp::unmv(m, st.side) else { continue };
        let y = map(x).idx();
        cx.stamp[y] = g;
        cx.stamp2[y] = pos.is_check_move(m) as u32;
        n += 1;
    }
    let l2 = q.legal_moves();
    if l2.len() != n {
        cx.fail(format!("{} moves, but {} on the board {what}: `{}`", n, l2.len(), im.sfen()));
    }
    for &m in l2.iter() {
        let Some(y) = imp::unmv(m, im.side) else { continue };
        if cx.stamp[y.idx()] != g {
            cx.fail(format!("the move {} is listed only on the board {what}: `{}`", y.usi(), im.sfen()));
        }
        if cx.stamp2[y.idx()] != q.is_check_move(m) as u32 {
            cx.fail(format!("the check prediction of {} differs on the board {what}: `{}`", y.usi(), im.sfen()));
        }
    }
    // the stamps hold generation-independent values now
    for &m in l2.iter() {
        if let Some(y) = imp::unmv(m, im.side) {
            cx.stamp2[y.idx()] = 0;
        }
    }
    cx.inc(S_::comparisons, 1);
}

/// Explore every sequence of at most `depth` legal moves from `st` on the one position `pos`, taking each back.
pub fn walk(cx: &mut Cx, st: &St, pos: &mut Pos, depth: u32, fresh: bool) {
    node(cx, st, pos, fresh);
    if depth == 0 {
        return;
    }
    let mut moves = cx.take();
    st.legal(&mut moves);
    let snap = if cx.has(C09) { Some(obs(pos)) } else { None };
    for &m in &moves {
        step(cx, st, pos, m, depth, &snap);
    }
    if depth > 1 || cx.has(C06 | C01 | C02 | C05) {
        // the same state again, now reached by take-backs
        node(cx, st, pos, false);
    }
    cx.give(moves);
}

/// The diagram on which the move itself was made (it then carries the move), constructed.
fn made(cx: &mut Cx, st: &St, n: &St, lm: shogi_core::Move, pos: &Pos) {
    let mut pp = imp::partial(st);
    pp.make_move(lm).expect("harness: make_move");
    let q = Pos::new(pp);
    if cx.has(C06) && q.in_check() != n.in_check() {
        cx.fail(format!("constructed from the diagram after the move, in_check() is {}", q.in_check()));
    }
    if cx.has(C17) {
        let r = imp::read(&q);
        if r != *n {
            cx.fail(format!("constructed from the diagram after the move, `{}` reads `{}`", n.sfen(), r.sfen()));
        }
    }
    if cx.has(C11) && q.keys() != pos.keys() {
        cx.fail("constructed from the diagram after the move, the keys are others".into());
    }
    if cx.has(C10) && (q.in_check() != pos.in_check() || lists(&q, n.side) != lists(pos, n.side)) {
        cx.fail("constructed from the diagram after the move, the moves, predictions or check are others".into());
    }
    cx.inc(S_::comparisons, 1);
}

pub fn step(cx: &mut Cx, st: &St, pos: &mut Pos, m: Mv, depth: u32, snap: &Option<Obs>) {
    let lm = imp::mv(m, st.side);
    let n = st.apply(m);
    cx.push(m);
    pos.do_move(lm);
    if cx.s().path_len == 1 && cx.has(C06 | C10 | C11 | C17) {
        made(cx, st, &n, lm, pos);
    }
    cx.inc(S_::transitions, 1);
    cx.inc(S_::drops, m.is_drop() as u64);
    cx.inc(S_::promotions, m.promo() as u64);
    cx.inc(S_::captures, (st.b[m.to() as usize] != 0) as u64);
    walk(cx, &n, pos, depth - 1, false);
    pos.undo_move(lm);
    cx.inc(S_::takebacks, 1);
    cx.pop();
    if let Some(s) = snap {
        let o = obs(pos);
        if o != *s {
            cx.fail(format!("after {} and its take-back: {}", m.usi(), diff(s, &o)));
        }
        cx.inc(S_::comparisons, 1);
    } else if cx.has(C06) && pos.in_check() != st.in_check() {
        cx.fail(format!("after {} and its take-back in_check() is {}", m.usi(), pos.in_check()));
    } else if cx.has(C11) && depth == 1 {
        let q = pos.keys();
        if q.0 ^ q.1 != pos.key() {
            cx.fail(format!("after {} and its take-back key() is not the exclusive-or of keys()", m.usi()));
        }
    }
}

/// Play one given line with all monitors on every position, then take everything back.
pub fn line(cx: &mut Cx, root: &St, path: &[Mv]) {
    let mut pos = imp::build(root);
    let mut sts = vec![*root];
    let mut snaps = vec![];
    node(cx, root, &pos, true);
    for (i, &m) in path.iter().enumerate() {
        let st = sts[i];
        snaps.push(obs(&pos));
        cx.push(m);
        pos.do_move(imp::mv(m, st.side));
        let n = st.apply(m);
        sts.push(n);
        node(cx, &n, &pos, false);
    }
    for (i, &m) in path.iter().enumerate().rev() {
        pos.undo_move(imp::mv(m, sts[i].side));
        cx.pop();
        if cx.has(C09) {
            let o = obs(&pos);
            if o != snaps[i] {
                cx.fail(format!("after taking back {}: {}", m.usi(), diff(&snaps[i], &o)));
            }
        }
        node(cx, &sts[i], &pos, false);
    }
}
