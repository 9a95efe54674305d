//! Families of positions: complete products over small alphabets. Each visits only legal positions.

use crate::model::*;

/// All 26 pieces other than kings.
pub fn pieces() -> Vec<u8> {
    let mut v = vec![];
    for k in 1..=14u8 {
        if k != K {
            v.push(mk(k, 0));
            v.push(mk(k, 1));
        }
    }
    v
}
pub fn sq(f: i8, r: i8) -> u8 {
    at(f, r).unwrap()
}
const NONE: u8 = 81;

/// Cells from which something could bear on `s`: its eight lines and the knight jumps of both sides.
pub fn related(s: u8) -> Vec<u8> {
    let g = geo();
    let mut v = vec![];
    for d in 0..8 {
        let (r, n) = &g.ray[d][s as usize];
        v.extend_from_slice(&r[..*n as usize]);
    }
    for c in 0..2 {
        let (r, n) = &g.kn[c][s as usize];
        v.extend_from_slice(&r[..*n as usize]);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hands {
    None,
    /// one of each kind for the side to move
    Mover,
    /// one of each kind for both sides
    Both,
    /// one of each for the side to move if it is in check, otherwise nothing
    IfCheck,
    /// a pawn for the side to move
    Pawn,
}
fn hands(st: &mut St, h: Hands) {
    st.h = [[0; 8]; 2];
    let one = [0, 1, 1, 1, 1, 1, 1, 1];
    match h {
        Hands::None => {}
        Hands::Mover => st.h[st.side as usize] = one,
        Hands::Both => st.h = [one, one],
        Hands::IfCheck => {
            if st.in_check() {
                st.h[st.side as usize] = one;
            }
        }
        Hands::Pawn => st.h[st.side as usize][1] = 1,
    }
}
fn put(st: &mut St, s: u8, p: u8) {
    if s != NONE {
        st.b[s as usize] = p;
    }
}
fn adjacent(a: u8, b: u8) -> bool {
    a != NONE && b != NONE && (file(a) - file(b)).abs() <= 1 && (rank(a) - rank(b)).abs() <= 1
}
/// Visit with both players to move, when legal.
fn both(st: &mut St, h: Hands, f: &mut dyn FnMut(&St)) {
    for side in 0..2 {
        st.side = side;
        if !st.check_on(1 - side) {
            hands(st, h);
            // a pawn in hand is one of the 18; the other kinds never exceed their set in these families
            f(st);
        }
    }
    st.h = [[0; 8]; 2];
}

#[derive(Clone, Debug)]
pub enum Fam {
    /// Kings on every pair from the two sets (81 = absent) and at most one further piece anywhere.
    Kings1 { bk: Vec<u8>, wk: Vec<u8>, hands: Hands },
    /// Subject king of each colour on each of the squares, the other king on each of `others`, and two further
    /// pieces on one line through the subject king (all 26 pieces each).
    Line2 { subj: Vec<u8>, others: Vec<u8>, hands: Hands },
    /// As Line2, but any two cells related to the subject king, pieces from `alpha`.
    Rel2 { subj: Vec<u8>, others: Vec<u8>, alpha: Vec<u8>, hands: Hands },
    /// Kings on the given pairs, any two pieces anywhere.
    Any2 { kings: Vec<(u8, u8)>, alpha: Vec<u8>, hands: Hands },
    /// Subject king, a checker or sniper on a related cell, a defender anywhere in reach, a second sniper.
    Evade3 { subj: Vec<u8>, other: u8, checkers: Vec<u8>, defenders: Vec<u8>, hands: Hands },
    /// Pawn drop in front of a king: every filling of its other seven neighbours from {empty, defender's
    /// blocker, attacker's tokin} x supporters of the pawn x one further defender piece.
    Uchi { subj: Vec<u8>, supports: u8, extras: bool },
    /// Pawn drop in front of a boxed-in king: one capturer anywhere with every sniper line.
    UchiPin { subj: Vec<u8>, capturers: Vec<u8>, box_with: u8 },
    /// The same with the attacker in check: a slider of the defender bears through the front cell on the
    /// attacker's king, with and without a sniper that pins it, so that the pawn drop answers the check.
    UchiEvade { subj: Vec<u8>, near: bool },
    /// One slider, every occupancy of its lines by blockers of one colour.
    Ray { kinds: Vec<u8>, squares: Vec<u8>, own: bool },
    /// Pawns of one colour on every combination of ranks on `width` neighbouring files, pawn in hand.
    PawnFiles { width: usize, full: bool },
    /// Both hands swept through every count, one kind per player at a time, with others empty or full.
    HandCounts { board: Vec<&'static str> },
    /// A capture of every kind by every kind, over every count of the captured kind already in hand.
    Captures { squares: Vec<u8> },
    /// All ways to move one piece of the given position to any other cell or remove it, both sides to move.
    Neighbours { sfen: &'static str, two: bool },
    /// The start position with every move number.
    Plies,
    /// A king with any set of pinned or discovering pieces on its eight lines at once that the material allows.
    Pins { subj: Vec<u8> },
    /// Pawns of the mover on every subset of the nine files, in several patterns of ranks, a pawn in hand; in check or not.
    PawnSets,
    /// Up to the full set of one kind (and of the gold-like kinds together, and of all) on the board for one player.
    Crowd,
    /// Diagrams no game reaches: every piece alone on every square, boards full of one piece, many kings.
    Boards,
}

impl Fam {
    pub fn name(&self) -> String {
        match self {
            Fam::Kings1 { bk, wk, hands } => format!("Kings1[{}x{} {hands:?}]", bk.len(), wk.len()),
            Fam::Line2 { subj, others, hands } => format!("Line2[{}x{} {hands:?}]", subj.len(), others.len()),
            Fam::Rel2 { subj, others, alpha, hands } => {
                format!("Rel2[{}x{} {}p {hands:?}]", subj.len(), others.len(), alpha.len())
            }
            Fam::Any2 { kings, alpha, hands } => format!("Any2[{} {}p {hands:?}]", kings.len(), alpha.len()),
            Fam::Evade3 { subj, checkers, defenders, hands, .. } => {
                format!("Evade3[{} {}p {}p {hands:?}]", subj.len(), checkers.len(), defenders.len())
            }
            Fam::Uchi { subj, supports, extras } => format!("Uchi[{} {supports}s {extras}]", subj.len()),
            Fam::UchiPin { subj, capturers, box_with } => {
                format!("UchiPin[{} {}p {box_with}]", subj.len(), capturers.len())
            }
            Fam::UchiEvade { subj, near } => format!("UchiEvade[{} {near}]", subj.len()),
            Fam::Ray { kinds, squares, own } => format!("Ray[{kinds:?} {} {own}]", squares.len()),
            Fam::PawnFiles { width, full } => format!("PawnFiles[{width} {full}]"),
            Fam::HandCounts { board } => format!("HandCounts[{}]", board.len()),
            Fam::Captures { squares } => format!("Captures[{}]", squares.len()),
            Fam::Neighbours { sfen, two } => format!("Neighbours[{} {two}]", &sfen[..6]),
            Fam::Plies => "Plies".into(),
            Fam::Pins { subj } => format!("Pins[{}]", subj.len()),
            Fam::PawnSets => "PawnSets".into(),
            Fam::Crowd => "Crowd".into(),
            Fam::Boards => "Boards".into(),
        }
    }
    pub fn chunks(&self) -> usize {
        match self {
            Fam::Kings1 { bk, .. } => bk.len(),
            Fam::Line2 { subj, .. } | Fam::Rel2 { subj, .. } => subj.len() * 2,
            Fam::Any2 { kings, alpha, .. } => kings.len() * alpha.len(),
            Fam::Evade3 { subj, checkers, .. } => subj.len() * 2 * checkers.len(),
            Fam::Uchi { subj, .. } => subj.len() * 2,
            Fam::UchiPin { subj, capturers, .. } => subj.len() * 2 * capturers.len(),
            Fam::UchiEvade { subj, .. } => subj.len() * 2,
            Fam::Ray { kinds, squares, .. } => squares.len() * kinds.len() * 2,
            Fam::PawnFiles { width, .. } => (10 - width) * 2,
            Fam::HandCounts { board } => board.len() * 7,
            Fam::Captures { squares } => squares.len() * 2,
            Fam::Neighbours { .. } => 82,
            Fam::Plies => 64,
            Fam::Pins { subj } => subj.len() * 2,
            Fam::PawnSets => 32,
            Fam::Crowd => 32,
            Fam::Boards => 28,
        }
    }

    pub fn run(&self, chunk: usize, f: &mut dyn FnMut(&St)) {
        match self {
            Fam::Kings1 { bk, wk, hands } => {
                let k0 = bk[chunk];
                for &k1 in wk {
                    if k0 == k1 && k0 != NONE || adjacent(k0, k1) {
                        continue;
                    }
                    let mut st = St::empty();
                    put(&mut st, k0, mk(K, 0));
                    put(&mut st, k1, mk(K, 1));
                    both(&mut st, *hands, f);
                    for s in 0..81u8 {
                        if s == k0 || s == k1 {
                            continue;
                        }
                        for &p in &pieces() {
                            if !dead(kind(p), color(p), s) {
                                st.b[s as usize] = p;
                                both(&mut st, *hands, f);
                            }
                        }
                        st.b[s as usize] = 0;
                    }
                }
            }
            Fam::Line2 { subj, others, hands } => {
                let k = subj[chunk / 2];
                let c = (chunk % 2) as u8;
                let g = geo();
                for &o in others {
                    if o == k || adjacent(o, k) {
                        continue;
                    }
                    let mut st = St::empty();
                    put(&mut st, k, mk(K, c));
                    put(&mut st, o, mk(K, 1 - c));
                    for d in 0..8 {
                        let (r, n) = &g.ray[d][k as usize];
                        let n = *n as usize;
                        for i in 0..n {
                            for j in i + 1..n {
                                two(&mut st, r[i], r[j], &pieces(), &pieces(), *hands, f);
                            }
                        }
                    }
                }
            }
            Fam::Rel2 { subj, others, alpha, hands } => {
                let k = subj[chunk / 2];
                let c = (chunk % 2) as u8;
                let rel = related(k);
                for &o in others {
                    if o == k || adjacent(o, k) {
                        continue;
                    }
                    let mut st = St::empty();
                    put(&mut st, k, mk(K, c));
                    put(&mut st, o, mk(K, 1 - c));
                    for i in 0..rel.len() {
                        for j in i + 1..rel.len() {
                            two(&mut st, rel[i], rel[j], alpha, alpha, *hands, f);
                        }
                    }
                }
            }
            Fam::Any2 { kings, alpha, hands } => {
                let (k0, k1) = kings[chunk / alpha.len()];
                let first = [alpha[chunk % alpha.len()]];
                let mut st = St::empty();
                put(&mut st, k0, mk(K, 0));
                put(&mut st, k1, mk(K, 1));
                for i in 0..81u8 {
                    for j in 0..81u8 {
                        if i != j {
                            // unordered: the second piece is not before the first in the alphabet
                            let rest: Vec<u8> = alpha[chunk % alpha.len()..]
                                .iter()
                                .copied()
                                .filter(|&p| p != first[0] || i < j)
                                .collect();
                            two(&mut st, i, j, &first, &rest, *hands, f);
                        }
                    }
                }
            }
            Fam::Evade3 { subj, other, checkers, defenders, hands } => {
                let n = checkers.len();
                let k = subj[chunk / (2 * n)];
                let c = (chunk / n % 2) as u8;
                let ck = checkers[chunk % n];
                evade3(k, c, *other, ck, defenders, *hands, f);
            }
            Fam::Uchi { subj, supports, extras } => uchi(subj[chunk / 2], (chunk % 2) as u8, *supports, *extras, f),
            Fam::UchiEvade { subj, near } => uchi_evade(subj[chunk / 2], (chunk % 2) as u8, *near, f),
            Fam::UchiPin { subj, capturers, box_with } => {
                let n = capturers.len();
                uchi_pin(subj[chunk / (2 * n)], (chunk / n % 2) as u8, capturers[chunk % n], *box_with, f)
            }
            Fam::Ray { kinds, squares, own } => {
                let s = squares[chunk % squares.len()];
                let c = (chunk / squares.len() % 2) as u8;
                let k = kinds[chunk / squares.len() / 2];
                if dead(k, c, s) {
                    return;
                }
                let mask = geo().slide[mk(k, c) as usize];
                let mut cells = vec![];
                for d in 0..8 {
                    if mask >> d & 1 == 1 {
                        let (r, n) = &geo().ray[d][s as usize];
                        cells.extend_from_slice(&r[..*n as usize]);
                    }
                }
                let blocker = mk(TO, if *own { c } else { 1 - c });
                let mut st = St::empty();
                st.side = c;
                st.b[s as usize] = mk(k, c);
                for occ in 0..1u32 << cells.len() {
                    for (i, &x) in cells.iter().enumerate() {
                        st.b[x as usize] = if occ >> i & 1 == 1 { blocker } else { 0 };
                    }
                    f(&st);
                }
            }
            Fam::PawnFiles { width, full } => {
                let c = (chunk % 2) as u8;
                let f0 = chunk / 2;
                let mut st = St::empty();
                st.side = c;
                if *full {
                    // kings out of the way of nothing in particular: they take part as ordinary blockers
                    st.b[sq(5, 9) as usize] = mk(K, 0);
                    st.b[sq(5, 1) as usize] = mk(K, 1);
                }
                st.h[c as usize] = [0, 1, 0, 0, 0, 0, 0, 0];
                let n = 10usize.pow(*width as u32);
                for code in 0..n {
                    let mut x = st;
                    let mut q = code;
                    let mut ok = true;
                    for i in 0..*width {
                        let r = q % 10;
                        q /= 10;
                        if r > 0 {
                            let s = ((f0 + i) * 9 + r - 1) as u8;
                            if dead(P, c, s) || x.b[s as usize] != 0 {
                                ok = false;
                                break;
                            }
                            x.b[s as usize] = mk(P, c);
                        }
                    }
                    if ok && !x.check_on(1 - c) {
                        f(&x);
                        // enemy pawns and a promoted pawn on the same files do not count
                        if let Some(t) = (0..81u8).find(|&s| x.b[s as usize] == 0 && s / 9 == f0 as u8) {
                            let mut y = x;
                            y.b[t as usize] = mk(TO, c);
                            if !y.check_on(1 - c) {
                                f(&y);
                            }
                            y.b[t as usize] = mk(P, 1 - c);
                            if !dead(P, 1 - c, t) && !y.check_on(1 - c) {
                                f(&y);
                            }
                        }
                    }
                }
            }
            Fam::HandCounts { board } => {
                let base = St::from_sfen(board[chunk / 7]).unwrap();
                let k = chunk % 7 + 1;
                let max = SET[k];
                for rest in 0..3 {
                    let mut st = base;
                    st.h = [[0; 8]; 2];
                    if rest > 0 {
                        for j in 1..=7usize {
                            if j != k {
                                st.h[rest - 1][j] = free(&base, j);
                            }
                        }
                    }
                    let max = max.min(free(&base, k));
                    for a in 0..=max {
                        for b in 0..=max - a {
                            st.h[0][k] = a;
                            st.h[1][k] = b;
                            for side in 0..2 {
                                st.side = side;
                                if st.legal_position() {
                                    f(&st);
                                }
                            }
                        }
                    }
                }
            }
            Fam::Captures { squares } => captures(squares[chunk / 2], (chunk % 2) as u8, f),
            Fam::Neighbours { sfen, two } => {
                let base = St::from_sfen(sfen).unwrap();
                let kings = (0..2).filter(|&c| base.king(c).is_some()).count();
                let mut visit = |st: &St| {
                    let mut x = *st;
                    for side in 0..2 {
                        x.side = side;
                        if x.legal_position() && (0..2).filter(|&c| x.king(c).is_some()).count() == kings {
                            f(&x);
                        }
                    }
                };
                if chunk == 81 {
                    visit(&base);
                    return;
                }
                let p = base.b[chunk];
                if p == 0 {
                    return;
                }
                let mut st = base;
                st.b[chunk] = 0;
                for t in 0..81usize {
                    if st.b[t] == 0 {
                        let mut x = st;
                        if kind(p) == K || t != chunk {
                            x.b[t] = p;
                            visit(&x);
                        } else {
                            // taken off the board into either hand
                            for c in 0..2usize {
                                let mut y = x;
                                y.h[c][unpromote(kind(p)) as usize] += 1;
                                visit(&y);
                            }
                        }
                        if *two && t != chunk {
                            for u in 0..81usize {
                                let q = base.b[u];
                                if u > chunk && q != 0 {
                                    for v in 0..81usize {
                                        if x.b[v] == 0 {
                                            let mut y = x;
                                            y.b[u] = 0;
                                            y.b[v] = q;
                                            visit(&y);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Fam::Plies => {
                let mut st = St::start();
                for p in 1..=65535u32 {
                    if p as usize % 64 == chunk {
                        st.ply = p as u16;
                        f(&st);
                    }
                }
            }
            Fam::Pins { subj } => pins(subj[chunk / 2], (chunk % 2) as u8, f),
            Fam::PawnSets => pawn_sets(chunk, f),
            Fam::Crowd => crowd(chunk, f),
            Fam::Boards => {
                let p = mk(chunk as u8 / 2 + 1, chunk as u8 % 2);
                for side in 0..2 {
                    let mut st = St::empty();
                    st.side = side;
                    for s in 0..81usize {
                        st.b[s] = p;
                        f(&st);
                        // and with everything else on the board the same piece of the other player
                        let mut x = st;
                        for t in 0..81 {
                            x.b[t] = if t == s { p } else { mk(kind(p), 1 - color(p)) };
                        }
                        f(&x);
                        x.b[s] = 0;
                        f(&x);
                        st.b[s] = 0;
                    }
                    // one square after the other
                    for s in 0..81usize {
                        st.b[s] = p;
                        st.h = [[0, 18, 4, 4, 4, 4, 2, 2]; 2];
                        f(&st);
                    }
                }
            }
        }
    }
}

fn free(st: &St, k: usize) -> u8 {
    SET[k] - st.b.iter().filter(|&&p| p != 0 && unpromote(kind(p)) as usize == k).count() as u8
}

fn two(st: &mut St, a: u8, b: u8, pa: &[u8], pb: &[u8], h: Hands, f: &mut dyn FnMut(&St)) {
    if st.b[a as usize] != 0 || st.b[b as usize] != 0 {
        return;
    }
    for &p in pa {
        if dead(kind(p), color(p), a) {
            continue;
        }
        st.b[a as usize] = p;
        for &q in pb {
            if dead(kind(q), color(q), b) || kind(p) == P && p == q && a / 9 == b / 9 {
                continue;
            }
            // two of a kind is the whole set of these: then none is left for a hand
            let pair = unpromote(kind(p)) == unpromote(kind(q)) && SET[unpromote(kind(p)) as usize] == 2;
            st.b[b as usize] = q;
            if pair && h != Hands::None && h != Hands::Pawn {
                both(st, Hands::Pawn, f);
            } else {
                let single = [p, q].iter().any(|&x| SET[unpromote(kind(x)) as usize] == 2);
                if h == Hands::Both && single {
                    both(st, Hands::Mover, f);
                } else {
                    both(st, h, f);
                }
            }
        }
        st.b[b as usize] = 0;
    }
    st.b[a as usize] = 0;
}

/// King of colour c on k in check (or exposed) by `ck` from every related cell; one defender of every given kind on
/// every cell that relates to the king's lines, and a pinner behind or elsewhere on the king's lines.
fn evade3(k: u8, c: u8, other: u8, ck: u8, defenders: &[u8], h: Hands, f: &mut dyn FnMut(&St)) {
    let e = 1 - c;
    let rel = related(k);
    let mut st = St::empty();
    st.side = c;
    st.b[k as usize] = mk(K, c);
    if other != NONE && other != k && !adjacent(other, k) {
        st.b[other as usize] = mk(K, e);
    }
    for &x in &rel {
        if st.b[x as usize] != 0 || dead(ck, e, x) {
            continue;
        }
        st.b[x as usize] = mk(ck, e);
        for &y in &rel {
            if st.b[y as usize] != 0 {
                continue;
            }
            for &dk in defenders {
                if dead(dk, c, y) {
                    continue;
                }
                st.b[y as usize] = mk(dk, c);
                for &z in &rel {
                    if st.b[z as usize] != 0 {
                        continue;
                    }
                    for pk in [L, B, R, UM, RY] {
                        let p = mk(pk, e);
                        // the pinner must look through the defender at the king
                        if dead(pk, e, z) || SET[unpromote(pk) as usize] == 2 && unpromote(pk) == unpromote(ck) && unpromote(dk) == unpromote(pk) {
                            continue;
                        }
                        st.b[z as usize] = p;
                        let mut hit = false;
                        st.targets(z, |t| hit |= t == y);
                        if hit && !st.check_on(e) {
                            let cnt = |u: u8| st.b.iter().filter(|&&q| q != 0 && unpromote(kind(q)) == u).count() as u8;
                            if h == Hands::IfCheck && st.in_check() {
                                for j in 1..=7u8 {
                                    st.h[c as usize][j as usize] = (cnt(j) < SET[j as usize]) as u8;
                                }
                            }
                            f(&st);
                            st.h = [[0; 8]; 2];
                        }
                    }
                    st.b[z as usize] = 0;
                }
            }
            st.b[y as usize] = 0;
        }
        st.b[x as usize] = 0;
    }
}

/// Cells around k without the one in front of it (from which the pawn would check).
fn ring(k: u8, c: u8) -> Vec<u8> {
    let front = front_of(k, c);
    let mut v = vec![];
    for (df, dr) in DIRS {
        if let Some(s) = at(file(k) + df, rank(k) + dr) {
            if Some(s) != front {
                v.push(s);
            }
        }
    }
    v
}
/// The cell in front of a king of colour c.
pub fn front_of(k: u8, c: u8) -> Option<u8> {
    at(file(k), rank(k) + if c == 0 { -1 } else { 1 })
}

/// The king of colour c stands on k; the other side is to move with a pawn in hand.
fn uchi(k: u8, c: u8, supports: u8, extras: bool, f: &mut dyn FnMut(&St)) {
    let e = 1 - c;
    let Some(fr) = front_of(k, c) else { return };
    if dead(P, e, fr) {
        return;
    }
    let rg = ring(k, c);
    let n = rg.len() as u32;
    let mut base = St::empty();
    base.side = e;
    base.b[k as usize] = mk(K, c);
    base.h[e as usize][P as usize] = 1;
    // supporters of the pawn: any attacker's piece that bears on the front cell from outside the ring
    let mut sup: Vec<(u8, u8)> = vec![(NONE, 0)];
    let kinds: &[u8] = match supports {
        1 => &[G, N, L],
        2 => &[N, L, G, B, R, S],
        _ => &[N, L, G, B, R, S, UM, RY, K],
    };
    for &sk in kinds {
        for s in 0..81u8 {
            if s == k || s == fr || rg.contains(&s) || dead(sk, e, s) {
                continue;
            }
            let mut x = base;
            x.b[s as usize] = mk(sk, e);
            let mut hit = false;
            x.targets(s, |t| hit |= t == fr);
            if hit {
                sup.push((s, mk(sk, e)));
            }
        }
        if supports == 1 && sup.len() > 3 {
            break;
        }
    }
    // one further piece of the defender that might capture on the front cell or be in the way
    let mut ext: Vec<(u8, u8)> = vec![(NONE, 0)];
    if extras {
        for ek in [P, L, N, S, G, B, R, UM, RY, TO] {
            for s in 0..81u8 {
                if s == k || s == fr || rg.contains(&s) || dead(ek, c, s) {
                    continue;
                }
                let mut x = base;
                x.b[s as usize] = mk(ek, c);
                let mut hit = false;
                x.targets(s, |t| hit |= t == fr);
                if hit {
                    ext.push((s, mk(ek, c)));
                }
            }
        }
    }
    for code in 0..3u32.pow(n) {
        let mut st = base;
        let mut q = code;
        let mut ok = true;
        let (mut lances, mut knights) = (0, 0);
        for &s in &rg {
            match q % 3 {
                1 => {
                    // a blocker that cannot capture in front of its king
                    if !dead(L, c, s) && lances < 4 {
                        lances += 1;
                        st.b[s as usize] = mk(L, c);
                    } else if !dead(N, c, s) && knights < 4 {
                        knights += 1;
                        st.b[s as usize] = mk(N, c);
                    } else {
                        ok = false;
                    }
                }
                2 => st.b[s as usize] = mk(TO, e),
                _ => {}
            }
            q /= 3;
        }
        if !ok || st.check_on(c) {
            continue;
        }
        for &(s, p) in &sup {
            if s != NONE {
                st.b[s as usize] = p;
            }
            if !st.check_on(c) {
                for &(t, x) in &ext {
                    if t != NONE && t == s {
                        continue;
                    }
                    if t != NONE {
                        st.b[t as usize] = x;
                    }
                    let over = |u: u8, m: u8| st.b.iter().filter(|&&y| y != 0 && unpromote(kind(y)) == u).count() as u8 > m;
                    if !over(L, 4) && !over(N, 4) && !st.check_on(c) && st.material_ok() {
                        f(&st);
                    }
                    if t != NONE {
                        st.b[t as usize] = 0;
                    }
                }
            }
            if s != NONE {
                st.b[s as usize] = 0;
            }
        }
    }
}

/// A boxed-in king; one capturer anywhere; every sniper on every line cell.
fn uchi_pin(k: u8, c: u8, cap: u8, box_with: u8, f: &mut dyn FnMut(&St)) {
    let e = 1 - c;
    let Some(fr) = front_of(k, c) else { return };
    if dead(P, e, fr) {
        return;
    }
    let rg = ring(k, c);
    let rel = related(k);
    let mut base = St::empty();
    base.side = e;
    base.b[k as usize] = mk(K, c);
    base.h[e as usize][P as usize] = 1;
    // the pawn is protected by a knight of the attacker, or by a gold
    let mut sup = None;
    for s in 0..81u8 {
        if s != k && s != fr && !rg.contains(&s) && !dead(N, e, s) {
            let mut x = base;
            x.b[s as usize] = mk(N, e);
            let mut hit = false;
            x.targets(s, |t| hit |= t == fr);
            if hit && !x.check_on(c) {
                sup = Some((s, mk(N, e)));
            }
        }
    }
    if sup.is_none() {
        for s in 0..81u8 {
            if s != k && s != fr && !rg.contains(&s) {
                let mut x = base;
                x.b[s as usize] = mk(G, e);
                let mut hit = false;
                x.targets(s, |t| hit |= t == fr);
                if hit && !x.check_on(c) {
                    sup = Some((s, mk(G, e)));
                }
            }
        }
    }
    let Some((ss, sp)) = sup else { return };
    base.b[ss as usize] = sp;
    for s in 0..81u8 {
        if s == k || s == fr || s == ss || dead(cap, c, s) {
            continue;
        }
        let mut st = base;
        // neighbours that are neither capturer nor wanted open are filled with blockers
        let (mut l, mut n) = (0, 0);
        let mut open = 0;
        for &x in &rg {
            if x == s || x == ss {
                continue;
            }
            open += 1;
            // leave one line open for a sniper, box_with selects which
            if box_with > 0 && open == box_with {
                continue;
            }
            if !dead(L, c, x) && l < 4 - (cap == L || cap == NY) as u8 {
                l += 1;
                st.b[x as usize] = mk(L, c);
            } else if !dead(N, c, x) && n < 3 - (cap == N || cap == NK) as u8 {
                n += 1;
                st.b[x as usize] = mk(N, c);
            } else {
                st.b[x as usize] = mk(TO, c);
            }
        }
        st.b[s as usize] = mk(cap, c);
        if !st.check_on(c) {
            f(&st);
        }
        for &z in &rel {
            if st.b[z as usize] != 0 || z == fr {
                continue;
            }
            for pk in [L, B, R, UM, RY] {
                if dead(pk, e, z) || pk == L && l + (cap == L || cap == NY) as u8 >= 4 {
                    continue;
                }
                st.b[z as usize] = mk(pk, e);
                if !st.check_on(c) {
                    f(&st);
                }
            }
            st.b[z as usize] = 0;
        }
    }
}

/// Around cell `t`: every kind of mover that can reach it in one step or slide, every victim, every hand count.
fn captures(t: u8, c: u8, f: &mut dyn FnMut(&St)) {
    let e = 1 - c;
    for vk in 1..=14u8 {
        if vk == K || dead(vk, e, t) {
            continue;
        }
        let u = unpromote(vk) as usize;
        let mut st = St::empty();
        st.side = c;
        st.b[t as usize] = mk(vk, e);
        // one mover of every kind on its nearest cell that attacks t
        let mut used = vec![t];
        for mkind in 1..=14u8 {
            if unpromote(mkind) as usize == u && mkind > 8 && SET[u] == 2 {
                continue;
            }
            let cell = (0..81u8).find(|&s| {
                !used.contains(&s) && !dead(mkind, c, s) && st.b[s as usize] == 0 && {
                    let mut x = st;
                    x.b[s as usize] = mk(mkind, c);
                    let mut hit = false;
                    x.targets(s, |y| hit |= y == t);
                    hit && !(mkind == P && (0..9).any(|r| x.b[(s / 9 * 9 + r) as usize] == mk(P, c) && s / 9 * 9 + r != s))
                }
            });
            if let Some(s) = cell {
                st.b[s as usize] = mk(mkind, c);
                used.push(s);
            }
        }
        let free = SET[u].saturating_sub(st.b.iter().filter(|&&p| p != 0 && unpromote(kind(p)) as usize == u).count() as u8);
        for n in 0..=free {
            for m in [0, free - n] {
                let mut x = st;
                x.h[c as usize][u] = n;
                x.h[e as usize][u] = m;
                if x.legal_position() {
                    f(&x);
                }
                if n == free {
                    break;
                }
            }
        }
    }
}

/// Fill the ring of `k` with pieces of its own colour that cannot capture in front of it, except on `skip`.
fn wall(st: &mut St, k: u8, c: u8, skip: &[u8]) {
    let (mut l, mut n) = (0, 0);
    for x in ring(k, c) {
        if skip.contains(&x) || st.b[x as usize] != 0 {
            continue;
        }
        st.b[x as usize] = if !dead(L, c, x) && l < 2 {
            l += 1;
            mk(L, c)
        } else if !dead(N, c, x) && n < 2 {
            n += 1;
            mk(N, c)
        } else {
            mk(P, c)
        };
        if kind(st.b[x as usize]) == P && (dead(P, c, x) || (0..9).any(|r| x / 9 * 9 + r != x && st.b[(x / 9 * 9 + r) as usize] == mk(P, c))) {
            st.b[x as usize] = mk(TO, c);
        }
    }
}

fn uchi_evade(k: u8, c: u8, near: bool, f: &mut dyn FnMut(&St)) {
    let e = 1 - c;
    let g = geo();
    let Some(fr) = front_of(k, c) else { return };
    if dead(P, e, fr) {
        return;
    }
    for d in 0..8 {
        // the attacker's king in direction d from the front cell, the checker on the other side
        let o = (0..8)
            .find(|&o| {
                let ((r, n), (q, m)) = (&g.ray[d][fr as usize], &g.ray[o][fr as usize]);
                *n > 0 && *m > 0 && file(r[0]) - file(fr) == file(fr) - file(q[0]) && rank(r[0]) - rank(fr) == rank(fr) - rank(q[0])
            });
        let Some(o) = o else { continue };
        let (kr, kn) = &g.ray[d][fr as usize];
        let (cr, cn) = &g.ray[o][fr as usize];
        let (kn, cn) = if near { ((*kn).min(2), (*cn).min(2)) } else { (*kn, *cn) };
        for &bk in &kr[..kn as usize] {
            if bk == k {
                break;
            }
            if adjacent(bk, k) {
                continue;
            }
            for &ch in &cr[..cn as usize] {
                if ch == k {
                    break;
                }
                for ck in [R, B, RY, UM, L] {
                    if dead(ck, c, ch) {
                        continue;
                    }
                    let mut st = St::empty();
                    st.side = e;
                    st.b[k as usize] = mk(K, c);
                    st.b[bk as usize] = mk(K, e);
                    st.b[ch as usize] = mk(ck, c);
                    if !st.check_on(e) {
                        continue;
                    }
                    st.h[e as usize][P as usize] = 1;
                    // empty cells between checker and king stay empty
                    let mut skip = vec![fr];
                    skip.extend(kr[..kn as usize].iter().take_while(|&&x| x != bk));
                    skip.extend(cr[..cn as usize].iter().take_while(|&&x| x != ch));
                    wall(&mut st, k, c, &skip);
                    // what protects the pawn
                    let base = st;
                    let mut sups = vec![(NONE, 0)];
                    for sk in [N, G, L, S] {
                        for s in 0..81u8 {
                            if base.b[s as usize] != 0 || skip.contains(&s) || dead(sk, e, s) {
                                continue;
                            }
                            let mut x = base;
                            x.b[s as usize] = mk(sk, e);
                            let mut hit = false;
                            x.targets(s, |t| hit |= t == fr);
                            if hit {
                                sups.push((s, mk(sk, e)));
                                if sk == L || near {
                                    break;
                                }
                            }
                        }
                    }
                    // what pins the checker to its king: on the line from k through ch, beyond ch
                    let mut pins = vec![(NONE, 0)];
                    for p in 0..8 {
                        let (r, n) = &g.ray[p][k as usize];
                        let r = &r[..*n as usize];
                        if let Some(i) = r.iter().position(|&x| x == ch) {
                            let beyond = &r[i + 1..];
                            let beyond = if near { &beyond[..beyond.len().min(1)] } else { beyond };
                            for &z in beyond {
                                for pk in [R, B, L] {
                                    if !dead(pk, e, z) {
                                        pins.push((z, mk(pk, e)));
                                    }
                                }
                            }
                        }
                    }
                    for &(s, sp) in &sups {
                        for &(z, zp) in &pins {
                            if z == s && z != NONE || z != NONE && base.b[z as usize] != 0 {
                                continue;
                            }
                            let mut st = base;
                            put(&mut st, s, sp);
                            put(&mut st, z, zp);
                            if st.check_on(e) && !st.check_on(c) && st.material_ok() {
                                f(&st);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// King of colour c on k; on each of its lines nothing, or a piece of either player and behind it a slider of the enemy.
fn pins(k: u8, c: u8, f: &mut dyn FnMut(&St)) {
    let g = geo();
    let e = 1 - c;
    let front = if c == 0 { 0 } else { 4 };
    let Some(other) = [sq(1, 1), sq(9, 9), sq(1, 9), sq(9, 1), sq(3, 8), sq(7, 2)].into_iter().find(|&o| {
        o != k && !adjacent(o, k) && !related(k).contains(&o)
    }) else {
        return;
    };
    let shields = [S, G, N, P, B, TO, L, NG, R, G, S];
    for code in 0..3usize.pow(8) {
        let opt = |d: usize| code / 3usize.pow(d as u32) % 3;
        let (mut rooks, mut bishops, mut bad, mut n) = (0, 0, false, 0);
        for d in 0..8 {
            match (opt(d), d % 2) {
                (0, _) => {}
                (1, 0) => rooks += 1,
                (1, _) => bishops += 1,
                _ => bad |= d != front,
            }
            n += (opt(d) > 0) as usize;
        }
        if bad || rooks > 2 || bishops > 2 || n == 0 {
            continue;
        }
        for near in 0..2usize {
            for far in 0..2 {
                for first in 0..4 {
                    for own in 0..3 {
                        for pro in 0..2 {
                            let mut st = St::empty();
                            st.b[k as usize] = mk(K, c);
                            st.b[other as usize] = mk(K, e);
                            let mut ok = true;
                            let mut i = 0;
                            for d in 0..8 {
                                if opt(d) == 0 {
                                    continue;
                                }
                                let (ray, len) = &g.ray[d][k as usize];
                                let len = *len as usize;
                                if near + 2 > len {
                                    ok = false;
                                    break;
                                }
                                let (a, b) = (ray[near], if far == 1 { ray[len - 1] } else { ray[near + 1] });
                                let sniper = if opt(d) == 2 {
                                    L
                                } else {
                                    [R, B, RY, UM][d % 2 + 2 * pro]
                                };
                                let col = [c, e, if i % 2 == 0 { c } else { e }][own];
                                // sliders only where some are left beside the snipers
                                let left = |k: u8| match unpromote(k) {
                                    R => 2 - rooks,
                                    B => 2 - bishops,
                                    _ => 1,
                                };
                                let mut j = first * 2 + i;
                                while left(shields[j % shields.len()]) < 1 {
                                    j += 1;
                                }
                                let sh = shields[j % shields.len()];
                                i += 1;
                                if a == other || b == other || dead(sh, col, a) || dead(sniper, e, b) {
                                    ok = false;
                                    break;
                                }
                                st.b[a as usize] = mk(sh, col);
                                st.b[b as usize] = mk(sniper, e);
                            }
                            if ok && st.material_ok() {
                                both(&mut st, Hands::None, f);
                            }
                        }
                    }
                }
            }
        }
    }
}

fn pawn_sets(chunk: usize, f: &mut dyn FnMut(&St)) {
    let c = (chunk % 2) as u8;
    let rr = |r: i8| if c == 0 { r } else { 10 - r };
    for set in (chunk / 2..512).step_by(16) {
        for pat in 0..11 {
            for mode in 0..4 {
                let mut st = St::empty();
                st.side = c;
                st.h[c as usize][P as usize] = 1;
                match mode {
                    // kings apart
                    0 => {
                        st.b[sq(5, rr(9)) as usize] = mk(K, c);
                        st.b[sq(5, rr(1)) as usize] = mk(K, 1 - c);
                    }
                    1 => {
                        st.b[sq(1, rr(1)) as usize] = mk(K, c);
                        st.b[sq(9, rr(9)) as usize] = mk(K, 1 - c);
                    }
                    // checked along the last rank from either side: a pawn may be interposed on the open files
                    2 => {
                        st.b[sq(1, rr(9)) as usize] = mk(K, c);
                        st.b[sq(9, rr(9)) as usize] = mk(R, 1 - c);
                    }
                    _ => {
                        st.b[sq(9, rr(9)) as usize] = mk(K, c);
                        st.b[sq(1, rr(9)) as usize] = mk(RY, 1 - c);
                        st.b[sq(5, rr(1)) as usize] = mk(K, 1 - c);
                    }
                }
                for i in 0..9i8 {
                    if set >> i & 1 == 0 {
                        continue;
                    }
                    let r = match pat {
                        0..=6 => pat as i8 + 2,
                        7 => i % 7 + 2,
                        8 => 8 - i % 7,
                        9 => if i % 2 == 0 { 3 } else { 7 },
                        _ => (i * 3) % 7 + 2,
                    };
                    let s = sq(i + 1, rr(r)) as usize;
                    if st.b[s] == 0 {
                        st.b[s] = mk(P, c);
                    }
                }
                if st.legal_position() {
                    f(&st);
                    // the enemy's pawns on the same files do not count
                    let mut x = st;
                    for i in 0..9u8 {
                        if set >> i & 1 == 0 {
                            let s = sq(i as i8 + 1, rr(4)) as usize;
                            if x.b[s] == 0 {
                                x.b[s] = mk(P, 1 - c);
                            }
                        }
                    }
                    if x.legal_position() {
                        f(&x);
                    }
                }
            }
        }
    }
}

fn crowd(chunk: usize, f: &mut dyn FnMut(&St)) {
    let mut lists: Vec<Vec<u8>> = (1..=14u8).filter(|&k| k != K).map(|k| vec![k; SET[unpromote(k) as usize] as usize]).collect();
    let many = |l: &[(u8, usize)]| -> Vec<u8> { l.iter().flat_map(|&(k, n)| vec![k; n]).collect() };
    lists.push(many(&[(G, 4), (NG, 4), (NK, 4), (NY, 4), (TO, 18)]));
    lists.push(many(&[(TO, 18), (NY, 4), (NK, 4), (NG, 4), (G, 4), (UM, 2), (RY, 2)]));
    lists.push(many(&[(R, 2), (B, 2), (L, 4), (N, 4), (S, 4), (G, 4), (P, 9), (TO, 9)]));
    lists.push(many(&[(RY, 1), (R, 1), (UM, 1), (B, 1), (L, 2), (NY, 2), (N, 2), (NK, 2), (S, 2), (NG, 2), (G, 4), (P, 9), (TO, 9)]));
    let mut case = 0;
    for c in 0..2u8 {
        for l in &lists {
            for order in 0..4 {
                for kings in 0..3 {
                    let mut st = St::empty();
                    let (a, b) = [(sq(5, 9), sq(5, 1)), (sq(9, 9), sq(1, 1)), (sq(5, 5), NONE)][kings];
                    put(&mut st, a, mk(K, c));
                    put(&mut st, b, mk(K, 1 - c));
                    let mut cells: Vec<u8> = (0..81u8).collect();
                    if order & 1 != 0 {
                        cells.sort_by_key(|&s| (rank(s), file(s)));
                    }
                    if order & 2 != 0 {
                        cells.reverse();
                    }
                    for &k in l {
                        let fits = |st: &St, s: u8| {
                            st.b[s as usize] == 0
                                && !dead(k, c, s)
                                && (k != P || (0..9).all(|r| st.b[(s / 9 * 9 + r) as usize] != mk(P, c)))
                                && {
                                    let mut x = *st;
                                    x.b[s as usize] = mk(k, c);
                                    !x.check_on(1 - c)
                                }
                        };
                        let Some(s) = cells.iter().copied().find(|&s| fits(&st, s)) else { break };
                        st.b[s as usize] = mk(k, c);
                        case += 1;
                        if case % 32 != chunk {
                            continue;
                        }
                        for side in 0..2 {
                            st.side = side;
                            for hand in [false, true] {
                                st.h = [[0; 8]; 2];
                                if hand {
                                    for q in 1..=7usize {
                                        st.h[side as usize][q] = (free(&st, q) > 0) as u8;
                                    }
                                }
                                if st.legal_position() {
                                    f(&st);
                                }
                            }
                        }
                        st.h = [[0; 8]; 2];
                    }
                }
            }
        }
    }
}
