//! Reference model of shogi: a mailbox board and nothing clever. Shares no code with yasai.
//!
//! Cells are numbered (file-1)*9 + (rank-1), file 1..9, rank 1 = top (White's home rank).
//! A piece is kind (1..=14) plus 16 for White; 0 is an empty cell.
//! Kinds: 1 pawn, 2 lance, 3 knight, 4 silver, 5 gold, 6 bishop, 7 rook, 8 king,
//! 9..=12 promoted pawn/lance/knight/silver, 13 horse, 14 dragon.

use std::sync::OnceLock;

pub const P: u8 = 1;
pub const L: u8 = 2;
pub const N: u8 = 3;
pub const S: u8 = 4;
pub const G: u8 = 5;
pub const B: u8 = 6;
pub const R: u8 = 7;
pub const K: u8 = 8;
pub const TO: u8 = 9;
pub const NY: u8 = 10;
pub const NK: u8 = 11;
pub const NG: u8 = 12;
pub const UM: u8 = 13;
pub const RY: u8 = 14;
pub const W: u8 = 16;

/// Number of pieces of each unpromoted kind in a set.
pub const SET: [u8; 9] = [0, 18, 4, 4, 4, 4, 2, 2, 2];

#[inline(always)]
pub fn kind(p: u8) -> u8 {
    p & 15
}
#[inline(always)]
pub fn color(p: u8) -> u8 {
    p >> 4
}
#[inline(always)]
pub fn mk(kind: u8, color: u8) -> u8 {
    kind | color << 4
}
pub fn file(sq: u8) -> i8 {
    (sq / 9) as i8 + 1
}
pub fn rank(sq: u8) -> i8 {
    (sq % 9) as i8 + 1
}
pub fn at(file: i8, rank: i8) -> Option<u8> {
    if (1..=9).contains(&file) && (1..=9).contains(&rank) {
        Some(((file - 1) * 9 + rank - 1) as u8)
    } else {
        None
    }
}
/// Distance from the far edge as seen by `c`: 1 = last rank.
pub fn rel_rank(sq: u8, c: u8) -> i8 {
    if c == 0 {
        rank(sq)
    } else {
        10 - rank(sq)
    }
}
pub fn in_zone(sq: u8, c: u8) -> bool {
    rel_rank(sq, c) <= 3
}
/// A piece of this kind on `sq` could never move again.
pub fn dead(kind: u8, c: u8, sq: u8) -> bool {
    match kind {
        P | L => rel_rank(sq, c) == 1,
        N => rel_rank(sq, c) <= 2,
        _ => false,
    }
}
pub fn promote(kind: u8) -> Option<u8> {
    match kind {
        P => Some(TO),
        L => Some(NY),
        N => Some(NK),
        S => Some(NG),
        B => Some(UM),
        R => Some(RY),
        _ => None,
    }
}
pub fn unpromote(kind: u8) -> u8 {
    match kind {
        TO => P,
        NY => L,
        NK => N,
        NG => S,
        UM => B,
        RY => R,
        k => k,
    }
}

/// The eight directions in circular order; direction d+4 is the opposite of d. 0 is Black's forward.
pub const DIRS: [(i8, i8); 8] = [
    (0, -1),
    (-1, -1),
    (-1, 0),
    (-1, 1),
    (0, 1),
    (1, 1),
    (1, 0),
    (1, -1),
];
const ORTH: u8 = 0b0101_0101;
const DIAG: u8 = 0b1010_1010;
/// (single steps, slides) of a Black piece as direction masks; knights are separate.
const fn moves_of(kind: u8) -> (u8, u8) {
    match kind {
        P => (0b0000_0001, 0),
        L => (0, 0b0000_0001),
        S => (DIAG | 1, 0),
        G | TO | NY | NK | NG => (ORTH | 0b1000_0010, 0),
        B => (0, DIAG),
        R => (0, ORTH),
        K => (0xff, 0),
        UM => (ORTH, DIAG),
        RY => (DIAG, ORTH),
        _ => (0, 0),
    }
}

pub struct Geo {
    /// ray[d][sq]: squares from sq in direction d, nearest first
    pub ray: [[([u8; 8], u8); 81]; 8],
    /// knight targets by colour
    pub kn: [[([u8; 2], u8); 81]; 2],
    pub step: [u8; 32],
    pub slide: [u8; 32],
}

pub fn geo() -> &'static Geo {
    static G: OnceLock<Box<Geo>> = OnceLock::new();
    G.get_or_init(|| {
        let mut g = Box::new(Geo {
            ray: [[([0; 8], 0); 81]; 8],
            kn: [[([0; 2], 0); 81]; 2],
            step: [0; 32],
            slide: [0; 32],
        });
        for sq in 0..81u8 {
            for (d, (df, dr)) in DIRS.iter().enumerate() {
                let (mut f, mut r) = (file(sq) + df, rank(sq) + dr);
                while let Some(t) = at(f, r) {
                    let e = &mut g.ray[d][sq as usize];
                    e.0[e.1 as usize] = t;
                    e.1 += 1;
                    f += df;
                    r += dr;
                }
            }
            for (c, dr) in [(0usize, -2i8), (1, 2)] {
                for df in [-1, 1] {
                    if let Some(t) = at(file(sq) + df, rank(sq) + dr) {
                        let e = &mut g.kn[c][sq as usize];
                        e.0[e.1 as usize] = t;
                        e.1 += 1;
                    }
                }
            }
        }
        for k in 1..=14u8 {
            let (st, sl) = moves_of(k);
            g.step[mk(k, 0) as usize] = st;
            g.slide[mk(k, 0) as usize] = sl;
            g.step[mk(k, 1) as usize] = st.rotate_left(4);
            g.slide[mk(k, 1) as usize] = sl.rotate_left(4);
        }
        g
    })
}

/// Moves are packed: bits 0..8 target, 8..16 source cell (or 81+kind for a drop), bit 16 promotion.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mv(pub u32);
impl Mv {
    pub fn normal(from: u8, to: u8, promo: bool) -> Mv {
        Mv(to as u32 | (from as u32) << 8 | (promo as u32) << 16)
    }
    pub fn drop(kind: u8, to: u8) -> Mv {
        Mv(to as u32 | (81 + kind as u32) << 8)
    }
    pub fn to(self) -> u8 {
        self.0 as u8
    }
    pub fn src(self) -> u8 {
        (self.0 >> 8) as u8
    }
    pub fn is_drop(self) -> bool {
        self.src() > 81
    }
    pub fn drop_kind(self) -> u8 {
        self.src() - 81
    }
    pub fn promo(self) -> bool {
        self.0 >> 16 & 1 == 1
    }
    /// Dense index below Mv::SPACE.
    pub fn idx(self) -> usize {
        (self.src() as usize * 81 + self.to() as usize) * 2 + self.promo() as usize
    }
    pub const SPACE: usize = 89 * 81 * 2;
    pub fn usi(self) -> String {
        let s = |q: u8| format!("{}{}", file(q), (b'a' + q % 9) as char);
        if self.is_drop() {
            format!("{}*{}", b"?PLNSGBR"[self.drop_kind() as usize] as char, s(self.to()))
        } else {
            format!("{}{}{}", s(self.src()), s(self.to()), if self.promo() { "+" } else { "" })
        }
    }
    pub fn from_usi(t: &str) -> Option<Mv> {
        let t = t.as_bytes();
        let sq = |a: u8, b: u8| at(a as i8 - b'0' as i8, b as i8 - b'a' as i8 + 1);
        if t.len() < 4 {
            return None;
        }
        if t[1] == b'*' {
            let k = b"?PLNSGBR".iter().position(|&x| x == t[0])? as u8;
            Some(Mv::drop(k, sq(t[2], t[3])?))
        } else {
            Some(Mv::normal(sq(t[0], t[1])?, sq(t[2], t[3])?, t.len() > 4 && t[4] == b'+'))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub b: [u8; 81],
    /// hands by colour and kind 1..=7
    pub h: [[u8; 8]; 2],
    pub side: u8,
    pub ply: u16,
}

impl St {
    pub fn empty() -> St {
        St { b: [0; 81], h: [[0; 8]; 2], side: 0, ply: 1 }
    }
    pub fn start() -> St {
        St::from_sfen("lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1").unwrap()
    }
    pub fn king(&self, c: u8) -> Option<u8> {
        self.b.iter().position(|&p| p == mk(K, c)).map(|x| x as u8)
    }

    /// Is `sq` attacked by a piece of colour `by`? Scans outward from `sq`.
    pub fn attacked(&self, sq: u8, by: u8) -> bool {
        let g = geo();
        for d in 0..8usize {
            let (ray, n) = &g.ray[d][sq as usize];
            for i in 0..*n as usize {
                let p = self.b[ray[i] as usize];
                if p != 0 {
                    if color(p) == by {
                        let back = 1u8 << ((d + 4) & 7);
                        if g.slide[p as usize] & back != 0 || (i == 0 && g.step[p as usize] & back != 0) {
                            return true;
                        }
                    }
                    break;
                }
            }
        }
        let (t, n) = &g.kn[1 - by as usize][sq as usize];
        t[..*n as usize].iter().any(|&s| self.b[s as usize] == mk(N, by))
    }
    /// Number of pieces of colour `by` attacking `sq`, by generating every piece's targets.
    pub fn attackers_naive(&self, sq: u8, by: u8) -> u32 {
        let mut n = 0;
        for s in 0..81u8 {
            let p = self.b[s as usize];
            if p != 0 && color(p) == by {
                let mut hit = false;
                self.targets(s, |t| hit |= t == sq);
                n += hit as u32;
            }
        }
        n
    }
    /// All cells the piece on `s` attacks (own pieces included as last cell of a line).
    pub fn targets(&self, s: u8, mut f: impl FnMut(u8)) {
        let g = geo();
        let p = self.b[s as usize];
        let (st, sl) = (g.step[p as usize], g.slide[p as usize]);
        for d in 0..8usize {
            let (ray, n) = &g.ray[d][s as usize];
            if sl >> d & 1 == 1 {
                for &t in &ray[..*n as usize] {
                    f(t);
                    if self.b[t as usize] != 0 {
                        break;
                    }
                }
            } else if st >> d & 1 == 1 && *n > 0 {
                f(ray[0]);
            }
        }
        if kind(p) == N {
            let (t, n) = &g.kn[color(p) as usize][s as usize];
            t[..*n as usize].iter().for_each(|&t| f(t));
        }
    }
    pub fn check_on(&self, c: u8) -> bool {
        match self.king(c) {
            Some(k) => self.attacked(k, 1 - c),
            None => false,
        }
    }
    pub fn in_check(&self) -> bool {
        self.check_on(self.side)
    }

    /// Moves by the rules except that the own king's safety (and pawn-drop mate) is not considered.
    pub fn pseudo(&self, out: &mut Vec<Mv>) {
        out.clear();
        let c = self.side;
        for s in 0..81u8 {
            let p = self.b[s as usize];
            if p == 0 || color(p) != c {
                continue;
            }
            let k = kind(p);
            self.targets(s, |t| {
                let q = self.b[t as usize];
                if q != 0 && color(q) == c {
                    return;
                }
                if promote(k).is_some() && (in_zone(s, c) || in_zone(t, c)) {
                    out.push(Mv::normal(s, t, true));
                }
                if !dead(k, c, t) {
                    out.push(Mv::normal(s, t, false));
                }
            });
        }
        for k in 1..=7u8 {
            if self.h[c as usize][k as usize] == 0 {
                continue;
            }
            for t in 0..81u8 {
                if self.b[t as usize] != 0 || dead(k, c, t) {
                    continue;
                }
                if k == P && (0..9).any(|r| self.b[(t / 9 * 9 + r) as usize] == mk(P, c)) {
                    continue;
                }
                out.push(Mv::drop(k, t));
            }
        }
    }
    /// Successor. The move must be pseudo-legal.
    pub fn apply(&self, m: Mv) -> St {
        let mut n = *self;
        let c = self.side;
        if m.is_drop() {
            n.h[c as usize][m.drop_kind() as usize] -= 1;
            n.b[m.to() as usize] = mk(m.drop_kind(), c);
        } else {
            let p = n.b[m.src() as usize];
            let q = n.b[m.to() as usize];
            if q != 0 {
                n.h[c as usize][unpromote(kind(q)) as usize & 7] += 1;
            }
            n.b[m.src() as usize] = 0;
            n.b[m.to() as usize] = if m.promo() { mk(promote(kind(p)).unwrap(), c) } else { p };
        }
        n.side = 1 - c;
        n.ply = n.ply.wrapping_add(1);
        n
    }
    /// The mover's king is safe after the (pseudo-legal) move.
    pub fn safe(&self, m: Mv) -> bool {
        let mut n = *self;
        let c = self.side;
        if m.is_drop() {
            n.b[m.to() as usize] = mk(m.drop_kind(), c);
        } else {
            n.b[m.to() as usize] = n.b[m.src() as usize];
            n.b[m.src() as usize] = 0;
        }
        !n.check_on(c)
    }
    /// A pawn drop that mates.
    pub fn drop_mate(&self, m: Mv) -> bool {
        if !m.is_drop() || m.drop_kind() != P {
            return false;
        }
        let n = self.apply(m);
        if !n.in_check() {
            return false;
        }
        thread_local! { static BUF: std::cell::RefCell<Vec<Mv>> = const { std::cell::RefCell::new(Vec::new()) }; }
        BUF.with(|b| {
            let v = &mut *b.borrow_mut();
            n.pseudo(v);
            !v.iter().any(|&r| n.safe(r))
        })
    }
    pub fn legal(&self, out: &mut Vec<Mv>) {
        self.pseudo(out);
        let c = self.side;
        let front = self.king(1 - c).and_then(|k| at(file(k), rank(k) + if c == 0 { 1 } else { -1 }));
        let chk = self.in_check();
        out.retain(|&m| {
            // a drop never uncovers the own king, so it only has to be tried when in check
            if (chk || !m.is_drop()) && !self.safe(m) {
                return false;
            }
            !(m.is_drop() && m.drop_kind() == P && Some(m.to()) == front && self.drop_mate(m))
        });
    }
    /// The same without any shortcut (self-test only).
    pub fn legal_naive(&self) -> Vec<Mv> {
        let mut v = Vec::new();
        self.pseudo(&mut v);
        v.retain(|&m| {
            let n = self.apply(m);
            let own = n.king(self.side);
            own.map_or(true, |k| n.attackers_naive(k, 1 - self.side) == 0) && {
                if m.is_drop() && m.drop_kind() == P {
                    let k = n.king(n.side);
                    let checked = k.map_or(false, |k| n.attackers_naive(k, self.side) > 0);
                    !(checked && {
                        let mut r = Vec::new();
                        n.pseudo(&mut r);
                        !r.iter().any(|&x| {
                            let z = n.apply(x);
                            z.attackers_naive(z.king(n.side).unwrap(), self.side) == 0
                        })
                    })
                } else {
                    true
                }
            }
        });
        v
    }

    /// Everything a legal position must satisfy except that the player not on move is not in check.
    pub fn material_ok(&self) -> bool {
        let mut cnt = [0u8; 9];
        let mut kings = [0u8; 2];
        let mut pawns = [[0u8; 9]; 2];
        for s in 0..81u8 {
            let p = self.b[s as usize];
            if p == 0 {
                continue;
            }
            let (k, c) = (kind(p), color(p));
            cnt[unpromote(k) as usize] += 1;
            if k == K {
                kings[c as usize] += 1;
            }
            if dead(k, c, s) {
                return false;
            }
            if k == P {
                pawns[c as usize][s as usize / 9] += 1;
                if pawns[c as usize][s as usize / 9] > 1 {
                    return false;
                }
            }
        }
        for k in 1..=7usize {
            cnt[k] += self.h[0][k] + self.h[1][k];
        }
        kings[0] <= 1 && kings[1] <= 1 && (1..=8).all(|k| cnt[k] <= SET[k])
    }
    pub fn legal_position(&self) -> bool {
        self.material_ok() && !self.check_on(1 - self.side)
    }

    pub fn sfen(&self) -> String {
        let mut s = String::new();
        for r in 1..=9i8 {
            let mut run = 0;
            for f in (1..=9i8).rev() {
                let p = self.b[at(f, r).unwrap() as usize];
                if p == 0 {
                    run += 1;
                    continue;
                }
                if run > 0 {
                    s += &run.to_string();
                    run = 0;
                }
                s += &piece_str(p);
            }
            if run > 0 {
                s += &run.to_string();
            }
            if r < 9 {
                s.push('/');
            }
        }
        s += if self.side == 0 { " b " } else { " w " };
        let mut h = String::new();
        for c in 0..2usize {
            for k in (1..=7usize).rev() {
                let n = self.h[c][k];
                if n > 0 {
                    if n > 1 {
                        h += &n.to_string();
                    }
                    h += &piece_str(mk(k as u8, c as u8));
                }
            }
        }
        s += if h.is_empty() { "-" } else { &h };
        s += &format!(" {}", self.ply);
        s
    }
    pub fn from_sfen(t: &str) -> Option<St> {
        let mut st = St::empty();
        let mut it = t.split_whitespace();
        let (mut f, mut r, mut pro) = (9i8, 1i8, false);
        for ch in it.next()?.chars() {
            match ch {
                '/' => {
                    r += 1;
                    f = 9;
                }
                '+' => pro = true,
                '1'..='9' => f -= ch as i8 - '0' as i8,
                _ => {
                    let k = " PLNSGBRK".find(ch.to_ascii_uppercase())? as u8;
                    let k = if pro { promote(k)? } else { k };
                    pro = false;
                    st.b[at(f, r)? as usize] = mk(k, ch.is_ascii_lowercase() as u8);
                    f -= 1;
                }
            }
        }
        st.side = (it.next()? == "w") as u8;
        let hand = it.next()?;
        if hand != "-" {
            let mut n = 0u8;
            for ch in hand.chars() {
                if let Some(d) = ch.to_digit(10) {
                    n = n * 10 + d as u8;
                } else {
                    let k = " PLNSGBR".find(ch.to_ascii_uppercase())?;
                    st.h[ch.is_ascii_lowercase() as usize][k] += n.max(1);
                    n = 0;
                }
            }
        }
        st.ply = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
        Some(st)
    }
    /// Rotate by 180 degrees and exchange the colours.
    pub fn rotated(&self) -> St {
        let mut n = *self;
        for s in 0..81 {
            let p = self.b[80 - s];
            n.b[s] = if p == 0 { 0 } else { p ^ W };
        }
        n.h = [self.h[1], self.h[0]];
        n.side = 1 - self.side;
        n
    }
    /// Mirror left to right.
    pub fn mirrored(&self) -> St {
        let mut n = *self;
        for s in 0..81 {
            n.b[s] = self.b[(8 - s / 9) * 9 + s % 9];
        }
        n
    }
}

impl Mv {
    pub fn rotated(self) -> Mv {
        if self.is_drop() {
            Mv::drop(self.drop_kind(), 80 - self.to())
        } else {
            Mv::normal(80 - self.src(), 80 - self.to(), self.promo())
        }
    }
    pub fn mirrored(self) -> Mv {
        let m = |s: u8| (8 - s / 9) * 9 + s % 9;
        if self.is_drop() {
            Mv::drop(self.drop_kind(), m(self.to()))
        } else {
            Mv::normal(m(self.src()), m(self.to()), self.promo())
        }
    }
}

pub fn piece_str(p: u8) -> String {
    let k = kind(p);
    let ch = b" PLNSGBRK"[unpromote(k) as usize] as char;
    let ch = if color(p) == 1 { ch.to_ascii_lowercase() } else { ch };
    if k > 8 {
        format!("+{ch}")
    } else {
        ch.to_string()
    }
}

pub fn perft(st: &St, depth: u32) -> u64 {
    let mut bufs = vec![Vec::with_capacity(640); depth.max(1) as usize];
    perft_in(st, &mut bufs)
}
fn perft_in(st: &St, bufs: &mut [Vec<Mv>]) -> u64 {
    let (v, rest) = bufs.split_first_mut().unwrap();
    st.legal(v);
    if rest.is_empty() {
        return v.len() as u64;
    }
    v.iter().map(|&m| perft_in(&st.apply(m), rest)).sum()
}
