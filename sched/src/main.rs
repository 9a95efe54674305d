//! Concurrent programs over the library, run under the controlled scheduler in ../rt.cc.
#![allow(dangerous_implicit_autorefs, dead_code)]

use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
use std::alloc::{GlobalAlloc, Layout};
use std::ffi::CString;
use std::os::raw::{c_char, c_int};
use yasai::Position;

extern "C" {
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_out(tid: c_int, v: u64);
    fn rt_panicked(tid: c_int, s: *const u8, n: usize);
    fn rt_explore(prog: c_int, nt: c_int, name: *const c_char, bound: c_int, cap: u64, secs: f64);
    fn rt_replay(prog: c_int, nt: c_int, sched: *const c_char) -> c_int;
    fn rt_answers(prog: c_int, nt: c_int) -> u64;
}

struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Arena = Arena;

// ---- diagrams, made before any thread exists
fn diagram(sfen: &str) -> PartialPosition {
    let mut it = sfen.split(' ');
    let (board, side, hands) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    let mut pp = PartialPosition::empty();
    let kind = |c: char, pro: bool| -> PieceKind {
        use PieceKind::*;
        let k = match c.to_ascii_uppercase() {
            'P' => Pawn,
            'L' => Lance,
            'N' => Knight,
            'S' => Silver,
            'G' => Gold,
            'B' => Bishop,
            'R' => Rook,
            _ => King,
        };
        if pro {
            k.promote().unwrap()
        } else {
            k
        }
    };
    let color = |c: char| if c.is_ascii_uppercase() { Color::Black } else { Color::White };
    for (r, row) in board.split('/').enumerate() {
        let (mut f, mut pro) = (9u8, false);
        for c in row.chars() {
            match c {
                '+' => pro = true,
                '1'..='9' => f -= c as u8 - b'0',
                _ => {
                    pp.piece_set(Square::new(f, r as u8 + 1).unwrap(), Some(Piece::new(kind(c, pro), color(c))));
                    pro = false;
                    f = f.wrapping_sub(1);
                }
            }
        }
    }
    let mut h = [Hand::default(), Hand::default()];
    let mut n = 0;
    for c in hands.chars() {
        if c.is_ascii_digit() {
            n = n * 10 + (c as u8 - b'0') as u32;
        } else if c != '-' {
            for _ in 0..n.max(1) {
                let x = &mut h[(color(c) == Color::White) as usize];
                *x = x.added(kind(c, false)).unwrap();
            }
            n = 0;
        }
    }
    for (i, c) in [Color::Black, Color::White].into_iter().enumerate() {
        #[allow(deprecated)]
        {
            *pp.hand_of_a_player_mut(c) = h[i];
        }
    }
    pp.side_to_move_set(if side == "b" { Color::Black } else { Color::White });
    pp
}
const SFENS: &[&str] = &[
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w GR5pnsg",
    "4k4/9/4s4/2r3b2/3p1p3/2P3L2/3N1S3/4G4/4K4 b RB2G2S2N3P 2g2n3l",
    "7lk/9/7G1/9/9/9/9/9/K8 b P",
    "4k4/4r4/9/1b7/9/9/3P5/4K1b2/9 b GSP",
    // a pawn may be dropped before a king whose defender is pinned on its file
    "8k/9/7+Rr/8L/9/9/9/9/9 b P",
    // pins of every slider, both sides; discovered checks by them
    "k8/1b5b1/4l4/3SSN3/r1P1K1G1r/9/9/9/9 b PLNG",
    "9/7+B1/9/5N3/R1N1k1G1+R/3P5/4P4/1B7/4L3K b PSg",
    // every kind of piece before its promotion zone and in the hand
    "4k4/9/1P1L2NS1/2B6/9/6b2/1p1l2ns1/9/4K4 b PLNR",
];
struct Shared {
    diagrams: Vec<PartialPosition>,
    pos: Option<Position>,
}
static mut SHARED: Shared = Shared { diagrams: Vec::new(), pos: None };
fn dia(i: usize) -> PartialPosition {
    unsafe { (*std::ptr::addr_of!(SHARED)).diagrams[2 * i].clone() }
}
fn dia_turned(i: usize) -> PartialPosition {
    unsafe { (*std::ptr::addr_of!(SHARED)).diagrams[2 * i + 1].clone() }
}

/// The same diagram turned by half a turn, with the colours exchanged.
fn turned(pp: &PartialPosition) -> PartialPosition {
    let mut q = PartialPosition::empty();
    for s in Square::all() {
        q.piece_set(s.flip(), pp.piece_at(s).map(|p| Piece::new(p.piece_kind(), p.color().flip())));
    }
    for c in [Color::Black, Color::White] {
        #[allow(deprecated)]
        {
            *q.hand_of_a_player_mut(c) = pp.hand_of_a_player(c.flip());
        }
    }
    q.side_to_move_set(pp.side_to_move().flip());
    q
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23)
}
fn code(m: Move) -> u64 {
    match m {
        Move::Normal { from, to, promote } => (from.index() as u64) << 9 | (to.index() as u64) << 1 | promote as u64,
        Move::Drop { piece, to } => 1 << 20 | (piece.as_u8() as u64) << 9 | to.index() as u64,
    }
}
/// Two builds may list the moves in different orders; two runs of one build may not.
static mut ANY_ORDER: bool = false;
fn arrange(v: &mut [u64]) {
    if unsafe { ANY_ORDER } {
        v.sort_unstable();
    }
}
fn moves(p: &Position) -> u64 {
    let mut v: Vec<u64> = p.legal_moves().iter().map(|&m| code(m)).collect();
    arrange(&mut v);
    v.iter().fold(v.len() as u64, |h, &x| mix(h, x))
}
fn checks(p: &Position) -> u64 {
    let mut v: Vec<u64> = p.legal_moves().iter().map(|&m| code(m) << 1 | p.is_check_move(m) as u64).collect();
    arrange(&mut v);
    v.iter().fold(1, |h, &x| mix(h, x))
}
fn keys(p: &Position) -> u64 {
    let k = p.keys();
    mix(mix(k.0, k.1), p.key())
}
fn first(p: &Position, f: impl Fn(&Move) -> bool) -> Option<Move> {
    let mut v: Vec<Move> = p.legal_moves().iter().copied().filter(|m| f(m)).collect();
    v.sort_by_key(|&m| code(m));
    v.first().copied()
}
fn play(p: &mut Position, out: &mut dyn FnMut(u64)) {
    for f in [(|m: &Move| m.is_drop()) as fn(&Move) -> bool, |m: &Move| m.is_promoting(), |_: &Move| true] {
        if let Some(m) = first(p, f) {
            p.do_move(m);
            out(keys(p));
            out(moves(p) ^ p.in_check() as u64);
            p.undo_move(m);
        }
    }
    out(keys(p));
}

pub const OPS: &[&str] = &["default+keys", "default+moves", "diagram0+all", "diagram1+play", "diagram2+droppawn", "diagram3+evade", "diagrams+tables"];
/// Operations on the position shared by all threads.
pub const SHARED_OPS: &[&str] = &["shared.moves", "shared.checks", "shared.keys", "shared.clone+play"];

fn op(i: usize, out: &mut dyn FnMut(u64)) {
    match i {
        0 => out(keys(&Position::default())),
        1 => out(moves(&Position::default())),
        2 => {
            let p = Position::new(dia(0));
            out(p.in_check() as u64);
            out(checks(&p));
            out(moves(&p));
        }
        3 => {
            let mut p = Position::new(dia(1));
            play(&mut p, out);
        }
        4 => {
            let p = Position::new(dia(2));
            out(moves(&p));
        }
        5 => {
            let mut p = Position::new(dia(3));
            out(p.in_check() as u64);
            out(checks(&p));
            play(&mut p, out);
        }
        6 => {
            for i in [2, 4] {
                for p in [dia(i), dia_turned(i)] {
                    out(moves(&Position::new(p)));
                }
            }
            for i in 5..8 {
                let p = Position::new(dia(i));
                out(keys(&p) ^ checks(&p));
                let mut p = Position::new(dia_turned(i));
                out(moves(&p) ^ p.in_check() as u64);
                if i == 7 {
                    play(&mut p, out);
                }
            }
        }
        _ => {
            let p = unsafe { (*std::ptr::addr_of!(SHARED)).pos.as_ref().unwrap() };
            match i - OPS.len() {
                0 => out(moves(p)),
                1 => out(checks(p)),
                2 => out(keys(p) ^ p.in_check() as u64),
                _ => play(&mut p.clone(), out),
            }
        }
    }
}

/// `Position` can be shared between threads only as long as the library says so.
struct Probe<T>(std::marker::PhantomData<T>);
trait No {
    const SYNC: bool = false;
}
impl<T> No for T {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

#[derive(Clone)]
struct Program {
    name: String,
    warm: bool,
    ops: Vec<Vec<usize>>,
}
fn name(i: usize) -> &'static str {
    OPS.iter().chain(SHARED_OPS).nth(i).unwrap()
}
fn programs() -> Vec<Program> {
    let mut v = vec![];
    let mut add = |warm: bool, ops: Vec<Vec<usize>>| {
        let t: Vec<String> = ops.iter().map(|o| o.iter().map(|&i| name(i)).collect::<Vec<_>>().join(";")).collect();
        v.push(Program { name: format!("{}: {}", if warm { "later" } else { "first use" }, t.join(" | ")), warm, ops });
    };
    let n = OPS.len();
    for i in 0..n {
        for j in i..n {
            add(false, vec![vec![i], vec![j]]);
        }
    }
    for i in 0..n - 1 {
        for j in i..n - 1 {
            add(true, vec![vec![i, i], vec![j, j]]);
        }
    }
    add(true, vec![vec![n - 1], vec![n - 1]]);
    if Probe::<Position>::SYNC {
        let m = SHARED_OPS.len();
        for i in 0..m {
            for j in i..m {
                add(true, vec![vec![n + i, n + i], vec![n + j]]);
            }
        }
        add(true, vec![vec![n], vec![n + 1], vec![n + 2]]);
    }
    for t in [[0, 0, 0], [0, 2, 3], [1, 4, 5], [3, 3, 5]] {
        add(false, t.iter().map(|&i| vec![i]).collect());
    }
    for t in [[0, 2, 3], [3, 4, 5]] {
        add(true, t.iter().map(|&i| vec![i]).collect());
    }
    v
}
static mut PROGRAMS: Vec<Program> = Vec::new();

#[no_mangle]
extern "C" fn mc_body(prog: c_int, tid: c_int) {
    let p = unsafe { &(*std::ptr::addr_of!(PROGRAMS))[prog as usize] };
    let r = std::panic::catch_unwind(|| {
        for &o in &p.ops[tid as usize] {
            op(o, &mut |v| unsafe { rt_out(tid, v) });
        }
    });
    if let Err(e) = r {
        let s = e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("panic");
        unsafe { rt_panicked(tid, s.as_ptr(), s.len()) }
    }
}

fn warm_up(p: &Program) {
    if p.warm {
        let mut sink = 0;
        for i in 0..OPS.len() {
            op(i, &mut |v| sink ^= v);
        }
        unsafe {
            (*std::ptr::addr_of_mut!(SHARED)).pos = Some(Position::new(dia(1)));
        }
        if sink == 1 {
            println!();
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        (*std::ptr::addr_of_mut!(SHARED)).diagrams = SFENS.iter().flat_map(|s| { let d = diagram(s); let t = turned(&d); [d, t] }).collect();
        *std::ptr::addr_of_mut!(PROGRAMS) = programs();
    }
    let ps = unsafe { &*std::ptr::addr_of!(PROGRAMS) };
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => ps.iter().for_each(|p| println!("{} {}", p.ops.len(), p.name)),
        "explore" => {
            let i: usize = a[2].parse().unwrap();
            let p = &ps[i];
            warm_up(p);
            let n = CString::new(p.name.as_str()).unwrap();
            unsafe { rt_explore(i as c_int, p.ops.len() as c_int, n.as_ptr(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()) }
        }
        "replay" => {
            let i = ps.iter().position(|p| p.name == a[2]).expect("program");
            warm_up(&ps[i]);
            let s = CString::new(a[3].as_str()).unwrap();
            std::process::exit(unsafe { rt_replay(i as c_int, ps[i].ops.len() as c_int, s.as_ptr()) });
        }
        // the sequential answers of every operation, in the order given, in this process
        "order" => {
            let mut first: Vec<(usize, Vec<u64>)> = vec![];
            unsafe { ANY_ORDER = a.get(3).is_some_and(|x| x == "sorted") };
            for i in a[2].split(',').map(|x| x.parse::<usize>().unwrap()) {
                let mut v = vec![];
                op(i, &mut |x| v.push(x));
                first.push((i, v));
            }
            first.sort();
            for (i, v) in first {
                println!("{} {:x?}", name(i), v);
            }
        }
        "answers" => {
            let i: usize = a[2].parse().unwrap();
            warm_up(&ps[i]);
            println!("{:x}", unsafe { rt_answers(i as c_int, ps[i].ops.len() as c_int) });
        }
        _ => std::process::exit(2),
    }
}
