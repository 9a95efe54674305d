//! Key separation: maps from keys to the positions that produced them, and the table of single differences.

use crate::cx::*;
use crate::imp::{self, Pos};
use crate::model::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Mutex;

#[derive(Default)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(x);
    }
}
type Map = HashMap<u64, u32, BuildHasherDefault<Id>>;

struct Part<const N: usize> {
    shards: Vec<Mutex<(Map, Vec<[u8; N]>)>>,
}
impl<const N: usize> Part<N> {
    fn new() -> Self {
        Part { shards: (0..256).map(|_| Mutex::new((Map::default(), Vec::new()))).collect() }
    }
    /// Ok(new?) or the other content that has the same key.
    fn put(&self, key: u64, val: &[u8; N]) -> Result<bool, [u8; N]> {
        let mut g = self.shards[(mix(key ^ 77) >> 56) as usize].lock().unwrap_or_else(|e| e.into_inner());
        let (m, a) = &mut *g;
        match m.get(&key) {
            Some(&i) => {
                if a[i as usize] == *val {
                    Ok(false)
                } else {
                    Err(a[i as usize])
                }
            }
            None => {
                let i = a.len() as u32;
                a.push(*val);
                m.insert(key, i);
                Ok(true)
            }
        }
    }
    fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().map(|g| g.1.len()).unwrap_or(0)).sum()
    }
}
pub struct KeyMaps {
    full: Part<96>,
    board: Part<82>,
    hands: Part<14>,
}
impl KeyMaps {
    pub fn new() -> Self {
        KeyMaps { full: Part::new(), board: Part::new(), hands: Part::new() }
    }
    pub fn sizes(&self) -> (usize, usize, usize) {
        (self.full.len(), self.board.len(), self.hands.len())
    }
}
impl Default for KeyMaps {
    fn default() -> Self {
        Self::new()
    }
}

fn pack(st: &St) -> ([u8; 96], [u8; 82], [u8; 14]) {
    let mut b = [0u8; 82];
    b[..81].copy_from_slice(&st.b);
    b[81] = st.side;
    let mut h = [0u8; 14];
    h[..7].copy_from_slice(&st.h[0][1..]);
    h[7..].copy_from_slice(&st.h[1][1..]);
    let mut f = [0u8; 96];
    f[..82].copy_from_slice(&b);
    f[82..].copy_from_slice(&h);
    (f, b, h)
}
fn unpack(b: Option<&[u8]>, h: Option<&[u8]>) -> St {
    let mut st = St::empty();
    if let Some(b) = b {
        st.b.copy_from_slice(&b[..81]);
        st.side = b[81];
    }
    if let Some(h) = h {
        st.h[0][1..].copy_from_slice(&h[..7]);
        st.h[1][1..].copy_from_slice(&h[7..]);
    }
    st
}

pub fn node(cx: &mut Cx, st: &St, pos: &Pos) {
    let (k0, k1) = pos.keys();
    let k = pos.key();
    let (f, b, h) = pack(st);
    if let Some(maps) = cx.keys {
        match maps.full.put(k, &f) {
            Ok(new) => cx.inc(S_::distinct_positions, new as u64),
            Err(o) => {
                let o = unpack(Some(&o[..82]), Some(&o[82..]));
                cx.fail(format!("has the key {k:x} of the different position `{}`", o.sfen()));
            }
        }
        if let Err(o) = maps.board.put(k0, &b) {
            let o = unpack(Some(&o), None);
            cx.fail(format!("has the first part key {k0:x} of the different board `{}`", o.sfen()));
        }
        if let Err(o) = maps.hands.put(k1, &h) {
            let o = unpack(None, Some(&o));
            cx.fail(format!("has the second part key {k1:x} of the different hands `{}`", o.sfen()));
        }
    }
    // each part depends on its own share of the position only
    let mut x = *st;
    x.h = [[0; 8]; 2];
    let q = imp::build(&x).keys().0;
    if q != k0 {
        cx.fail(format!("first part key {k0:x} becomes {q:x} when only the hands are emptied"));
    }
    let mut x = St::empty();
    x.h = st.h;
    let q = imp::build(&x).keys().1;
    if q != k1 {
        cx.fail(format!("second part key {k1:x} becomes {q:x} on another board"));
    }
    cx.inc(S_::comparisons, 1);
}

fn differ(cx: &mut Cx, a: &St, b: &St) {
    let (p, q) = (imp::build(a), imp::build(b));
    cx.inc(S_::key_pairs, 1);
    if p.key() == q.key() {
        cx.fail(format!("has the key {:x} of the different position `{}`", p.key(), b.sfen()));
    }
    let (pa, pb) = (pack(a), pack(b));
    if pa.1 != pb.1 && p.keys().0 == q.keys().0 {
        cx.fail(format!("has the first part key {:x} of the different board `{}`", p.keys().0, b.sfen()));
    }
    if pa.2 != pb.2 && p.keys().1 == q.keys().1 {
        cx.fail(format!("has the second part key {:x} of the different hands `{}`", p.keys().1, b.sfen()));
    }
}

#[derive(Clone, Copy, Debug)]
enum Atom {
    Side,
    Piece(u8, u8),
    Hand(u8, u8, u8, u8),
}
impl Atom {
    /// Apply one side of the difference; `hi` selects which.
    fn put(self, st: &mut St, hi: bool) -> bool {
        match self {
            Atom::Side => {
                if hi {
                    st.side ^= 1;
                }
                true
            }
            Atom::Piece(s, p) => {
                if !hi {
                    return true;
                }
                if st.b[s as usize] != 0 {
                    return false;
                }
                st.b[s as usize] = p;
                true
            }
            Atom::Hand(c, k, a, b) => {
                let n = &mut st.h[c as usize][k as usize];
                if *n != 0 {
                    return false;
                }
                *n = if hi { b } else { a };
                true
            }
        }
    }
}

/// Every difference by one atom (a piece on a square, a hand count changed from a to b, the side to move):
/// its key change must not vanish; every pair of atoms: no two pairs may change the key alike. With an
/// exclusive-or hash that separates all positions which differ in at most four atoms. A coincidence is only
/// reported after it was confirmed on two real positions.
pub fn atoms(cx: &mut Cx, part: usize, parts: usize) -> Vec<(u64, Viol)> {
    let mut out = vec![];
    let base = St::empty();
    let kb = imp::build(&base).key();
    let mut list: Vec<(Atom, u64)> = vec![];
    let mut try_atom = |cx: &mut Cx, a: Atom, list: &mut Vec<(Atom, u64)>| {
        let (mut x, mut y) = (base, base);
        a.put(&mut x, false);
        a.put(&mut y, true);
        let mut key = 0;
        let r = cx.case(&y, |cx| {
            differ(cx, &y, &x);
            key = imp::build(&y).key() ^ imp::build(&x).key();
            let _ = kb;
        });
        if let Err(v) = r {
            out.push((0, v));
        } else {
            list.push((a, key));
        }
    };
    try_atom(cx, Atom::Side, &mut list);
    for s in 0..81u8 {
        for k in 1..=14u8 {
            for c in 0..2 {
                if !dead(k, c, s) {
                    try_atom(cx, Atom::Piece(s, mk(k, c)), &mut list);
                }
            }
        }
    }
    for c in 0..2u8 {
        for k in 1..=7u8 {
            for a in 0..=SET[k as usize] {
                for b in a + 1..=SET[k as usize] {
                    try_atom(cx, Atom::Hand(c, k, a, b), &mut list);
                }
            }
        }
    }
    cx.inc(S_::states, list.len() as u64);
    // all pairs, bucketed by the top bits of their combined change so that parts fit in memory
    let mut seen: HashMap<u64, (u32, u32), BuildHasherDefault<Id>> = HashMap::default();
    for i in 0..list.len() {
        for j in i..list.len() {
            let x = if i == j { list[i].1 } else { list[i].1 ^ list[j].1 };
            if mix(x) as usize % parts != part {
                continue;
            }
            if i != j && x == 0 {
                confirm(cx, &list, &[i], &[j], &mut out);
            }
            cx.inc(S_::key_pairs, 1);
            if let Some(&(a, b)) = seen.get(&x) {
                let l: Vec<usize> = if i == j { vec![i] } else { vec![i, j] };
                let r: Vec<usize> = if a == b { vec![a as usize] } else { vec![a as usize, b as usize] };
                confirm(cx, &list, &l, &r, &mut out);
            } else {
                seen.insert(x, (i as u32, j as u32));
            }
            if out.len() > 4 {
                return out;
            }
        }
    }
    out
}

/// Positions that differ by exactly the atoms of l and r (an atom in both cancels).
fn confirm(cx: &mut Cx, list: &[(Atom, u64)], l: &[usize], r: &[usize], out: &mut Vec<(u64, Viol)>) {
    let all: Vec<usize> = l.iter().chain(r).copied().collect();
    let uniq: Vec<usize> = all.iter().copied().filter(|x| all.iter().filter(|y| *y == x).count() == 1).collect();
    if uniq.is_empty() {
        return;
    }
    // split the atoms over two positions in every way; both must be legal and different
    for mask in 0..1u32 << uniq.len() {
        let (mut x, mut y) = (St::empty(), St::empty());
        let mut ok = true;
        for (n, &i) in uniq.iter().enumerate() {
            let hi = mask >> n & 1 == 1;
            ok &= list[i].0.put(&mut x, hi) & list[i].0.put(&mut y, !hi);
        }
        if !ok || x == y || !x.legal_position() || !y.legal_position() {
            continue;
        }
        if let Err(v) = cx.case(&x, |cx| differ(cx, &x, &y)) {
            out.push((0, v));
            return;
        }
    }
}
