//! Which families and trees decide which property, at which depth, per tier.

use crate::engine::*;
use crate::fam::*;
use crate::model::*;
use crate::mon::*;
use crate::roots;

pub fn flag(prop: &str) -> u32 {
    match prop {
        "C01" => C01,
        "C02" => C02,
        "C03" => C03,
        "C04" => C04,
        "C05" => C05,
        "C06" => C06,
        "C07" => C07,
        "C08" => C08,
        "C09" => C09,
        "C10" => C10,
        "C11" => C11,
        "C12" => C12,
        "C13" => C13,
        "C14" => C14,
        "C15" => C15,
        "C17" => C17,
        "C19" => C19,
        "C20" | "C20S" => TOUCH,
        _ => panic!("unknown property {prop}"),
    }
}

fn all() -> Vec<u8> {
    (0..81).collect()
}
fn all_absent() -> Vec<u8> {
    (0..82).collect()
}
/// Corners, edges, zone borders, centre.
fn reps() -> Vec<u8> {
    vec![sq(5, 5), sq(1, 1), sq(9, 9), sq(5, 1), sq(5, 9), sq(1, 9), sq(9, 1), sq(2, 3), sq(8, 7)]
}
fn few() -> Vec<u8> {
    vec![sq(5, 5), sq(1, 2), sq(8, 9)]
}
fn pairs(n: usize) -> Vec<(u8, u8)> {
    [
        (sq(5, 9), sq(5, 1)),
        (sq(2, 8), sq(8, 2)),
        (sq(1, 1), sq(9, 9)),
        (sq(5, 5), sq(5, 3)),
        (sq(9, 4), sq(1, 4)),
        (sq(4, 6), sq(6, 8)),
        (81, sq(5, 2)),
        (sq(6, 7), 81),
    ][..n]
        .to_vec()
}
fn alpha_small() -> Vec<u8> {
    let mut v = vec![];
    for k in [P, L, N, S, G, B, R, UM, RY] {
        v.push(mk(k, 0));
        v.push(mk(k, 1));
    }
    v
}

pub fn tasks(prop: &str, thorough: bool) -> Vec<Task> {
    let f = flag(prop);
    let th = thorough;
    let mut v: Vec<Task> = vec![];
    if prop == "C20S" {
        return small();
    }
    let mut fam = |x: Fam, d: u32| v.push(family(x, d));
    // monitors that look at one position, at its successors, and at construction only
    let node = f & (C01 | C02 | C03 | C04 | C05 | C06 | C07 | C13 | C14 | C15 | TOUCH) != 0;
    let edge = f & (C08 | C09 | C10 | C11 | C12 | TOUCH) != 0;
    let p2 = if th { pairs(8) } else { pairs(2) };

    if node {
        let costly = f & (C14 | C15) != 0;
        if th || !costly {
            fam(Fam::Kings1 { bk: all_absent(), wk: all_absent(), hands: Hands::None }, 0);
        } else {
            fam(Fam::Kings1 { bk: all_absent(), wk: few(), hands: Hands::None }, 0);
            fam(Fam::Kings1 { bk: few(), wk: all_absent(), hands: Hands::None }, 0);
        }
        let drops = f & (C03 | C04 | C01 | C02) != 0 || th;
        fam(
            Fam::Kings1 {
                bk: if drops { reps() } else { few() },
                wk: if drops { reps() } else { few() },
                hands: Hands::Mover,
            },
            0,
        );
        fam(Fam::Kings1 { bk: few(), wk: few(), hands: Hands::None }, 1);
        fam(Fam::Kings1 { bk: vec![sq(5, 5), sq(2, 9)], wk: vec![sq(5, 1), sq(3, 7)], hands: Hands::Pawn }, 1);
        if !costly || th {
            fam(Fam::Line2 { subj: all(), others: vec![sq(1, 5)], hands: Hands::IfCheck }, 0);
            fam(Fam::Line2 { subj: all(), others: vec![sq(8, 4)], hands: Hands::IfCheck }, 0);
        } else {
            fam(Fam::Line2 { subj: reps(), others: vec![sq(1, 5)], hands: Hands::IfCheck }, 0);
        }
        fam(Fam::Line2 { subj: few(), others: vec![sq(3, 5)], hands: Hands::None }, 1);
        fam(
            Fam::Rel2 {
                subj: if th { all() } else { few() },
                others: vec![sq(7, 6)],
                alpha: alpha_small(),
                hands: Hands::IfCheck,
            },
            0,
        );
        fam(Fam::Any2 { kings: p2.clone(), alpha: if th { pieces() } else { alpha_small() }, hands: Hands::None }, 0);
        let ev = f & (C01 | C02 | C05) != 0;
        fam(
            Fam::Evade3 {
                subj: if th { reps() } else { vec![sq(5, 5), sq(2, 8)] },
                other: sq(9, 1),
                checkers: if ev { vec![P, L, N, S, G, B, R, UM, RY, TO] } else { vec![L, N, G, B, RY] },
                defenders: if th { (1..=14).filter(|&k| k != K).collect() } else { vec![P, N, S, B, RY] },
                hands: Hands::IfCheck,
            },
            0,
        );
        let u = f & (C01 | C02 | C04) != 0;
        if u {
            fam(Fam::Uchi { subj: all(), supports: 2, extras: false }, 0);
            fam(Fam::Uchi { subj: if th { all() } else { few() }, supports: if th { 3 } else { 2 }, extras: true }, 0);
            fam(Fam::UchiEvade { subj: all(), near: false }, 0);
            for b in 0..if th { 8 } else { 3 } {
                fam(
                    Fam::UchiPin {
                        subj: if th { all() } else { vec![sq(5, 5), sq(1, 1), sq(3, 9), sq(9, 4)] },
                        capturers: (1..=14).filter(|&k| k != K).collect(),
                        box_with: b,
                    },
                    0,
                );
            }
        } else {
            fam(Fam::Uchi { subj: if th { reps() } else { few() }, supports: 1, extras: false }, 0);
        }
        fam(Fam::PawnFiles { width: if th { 5 } else if f & (C01 | C02 | C04) != 0 { 4 } else { 3 }, full: false }, 0);
        fam(Fam::PawnFiles { width: 3, full: true }, 0);
        fam(Fam::HandCounts { board: HB.to_vec() }, 0);
        fam(Fam::Captures { squares: if th { all() } else { reps() } }, 1);
        fam(Fam::Neighbours { sfen: roots::MAX593, two: th && f & (C03 | C01 | C02) != 0 }, 0);
        fam(Fam::Pins { subj: if th { all() } else if costly { vec![sq(5, 5)] } else { few() } }, 0);
        fam(Fam::PawnSets, 0);
        fam(Fam::Crowd, 0);
    }
    if edge {
        fam(Fam::Pins { subj: if th { reps() } else { vec![sq(5, 5)] } }, 0);
        fam(Fam::Crowd, if th { 1 } else { 0 });
        fam(Fam::Kings1 { bk: all_absent(), wk: if th { all_absent() } else { few() }, hands: Hands::None }, 1);
        fam(Fam::Kings1 { bk: few(), wk: all_absent(), hands: Hands::None }, 1);
        fam(Fam::Kings1 { bk: few(), wk: few(), hands: if th { Hands::Both } else { Hands::Pawn } }, 1);
        fam(Fam::Line2 { subj: if th { all() } else { few() }, others: vec![sq(3, 5)], hands: Hands::IfCheck }, 1);
        fam(Fam::Any2 { kings: if th { pairs(4) } else { pairs(1) }, alpha: alpha_small(), hands: Hands::None }, 1);
        fam(Fam::Kings1 { bk: vec![sq(4, 6)], wk: vec![sq(6, 3), sq(1, 1)], hands: Hands::None }, if th { 3 } else { 2 });
        fam(Fam::PawnFiles { width: if th { 4 } else { 2 }, full: true }, 1);
        fam(Fam::HandCounts { board: HB.to_vec() }, 1);
        fam(Fam::Captures { squares: all() }, 1);
        if th {
            fam(Fam::Captures { squares: reps() }, 2);
        }
        fam(Fam::Neighbours { sfen: roots::MAX593, two: false }, if th { 1 } else { 0 });
    }
    if f & C17 != 0 {
        fam(Fam::Kings1 { bk: all_absent(), wk: if th { all_absent() } else { reps() }, hands: Hands::None }, 0);
        fam(Fam::Kings1 { bk: reps(), wk: all_absent(), hands: Hands::Both }, 0);
        fam(Fam::Line2 { subj: if th { all() } else { reps() }, others: vec![sq(3, 5)], hands: Hands::Both }, 0);
        fam(Fam::Any2 { kings: p2, alpha: pieces(), hands: Hands::Both }, 0);
        fam(Fam::PawnFiles { width: if th { 5 } else { 4 }, full: false }, 0);
        fam(Fam::HandCounts { board: HB.to_vec() }, 0);
        fam(Fam::Captures { squares: all() }, 0);
        fam(Fam::Neighbours { sfen: roots::MAX593, two: th }, 0);
        for s in roots::SEEDS {
            fam(Fam::Neighbours { sfen: s, two: th }, 0);
        }
        fam(Fam::Plies, 0);
        fam(Fam::Boards, 0);
        fam(Fam::PawnSets, 0);
        fam(Fam::Crowd, 0);
    }
    if f & (C19 | TOUCH) != 0 {
        for own in [false, true] {
            fam(
                Fam::Ray {
                    kinds: if th || !own { vec![L, B, R, UM, RY] } else { vec![L, B, R] },
                    squares: if own && !th { reps() } else { all() },
                    own,
                },
                0,
            );
        }
    }
    if f & C11 != 0 {
        fam(Fam::Plies, 0);
    }
    if f & C15 != 0 {
        v.push(crate::ops::programs(if th { 7 } else { 6 }));
        v.push(crate::ops::clones(if th { 3 } else { 30 }));
        v.push(crate::ops::interleave(if th { 40 } else { 20 }, false));
        v.push(crate::ops::interleave(if th { 20 } else { 6 }, true));
    }
    if f & TOUCH != 0 {
        v.push(crate::touch::any_task());
        v.push(family(Fam::Neighbours { sfen: roots::MAXNOKING, two: false }, 0));
    }
    // trees
    let cheap = f & (C01 | C02 | C03 | C04 | C05 | C06 | C08 | C11 | C12) != 0;
    for (i, s) in roots::SEEDS.iter().enumerate() {
        let st = St::from_sfen(s).unwrap();
        let mut l = vec![];
        st.legal(&mut l);
        let d = match (i, th) {
            (0, false) => if cheap { 4 } else { 3 },
            (0, true) => if cheap { 5 } else { 4 },
            (_, true) if l.len() < 160 => 3,
            (_, false) if l.len() < 40 => 3,
            _ => 2,
        };
        v.push(tree(s, d));
    }
    if f & (C06 | C08 | C09 | C10 | C11 | C12 | C13 | C15 | TOUCH) != 0 {
        for s in roots::SEEDS {
            v.push(returns(s, if th { 4 } else { 1 }, if th { 5 } else { 3 }));
        }
    }
    for (i, s) in roots::SEEDS.iter().enumerate() {
        if th || i < 4 || f & (C17 | C10 | C06) != 0 {
            v.push(made(s));
        }
    }
    v.push(games(if th { 400 } else { 48 }, 256, 4, 1));
    v.push(games(if th { 200 } else { 8 }, 1200, if th { 16 } else { 64 }, 1));
    v.push(long(roots::CYCLE_ROOT, roots::CYCLE, 65534, 1));
    v.push(long(roots::SEEDS[0], roots::SHUTTLE, if th { 65534 } else { 3000 }, 1));
    v.push(long(roots::CYCLE_ROOT, roots::CYCLE, 300, 65535 - 300));
    v
}

pub const HB: &[&str] = &[
    "4k4/9/9/9/9/9/9/9/4K4 b - 1",
    "9/9/3k5/9/9/9/5K3/9/9 b - 1",
    "4k4/9/4s4/2r3b2/3p1p3/2P3L2/3N1S3/4G4/4K4 b - 1",
];

/// For slow monitors.
fn small() -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let mut fam = |x: Fam, d: u32| v.push(family(x, d));
    fam(Fam::Kings1 { bk: all_absent(), wk: vec![sq(5, 1)], hands: Hands::None }, 1);
    fam(Fam::Kings1 { bk: few(), wk: few(), hands: Hands::Mover }, 0);
    fam(Fam::Line2 { subj: reps(), others: vec![sq(1, 5)], hands: Hands::IfCheck }, 0);
    fam(Fam::Ray { kinds: vec![L, B, R, UM, RY], squares: few(), own: false }, 0);
    fam(Fam::Evade3 {
        subj: vec![sq(5, 5)],
        other: sq(9, 1),
        checkers: vec![L, N, G, B, RY],
        defenders: vec![P, N, S, B, RY],
        hands: Hands::IfCheck,
    }, 0);
    fam(Fam::Uchi { subj: few(), supports: 1, extras: false }, 0);
    fam(Fam::PawnFiles { width: 2, full: true }, 1);
    fam(Fam::HandCounts { board: HB.to_vec() }, 1);
    fam(Fam::Captures { squares: reps() }, 1);
    fam(Fam::Neighbours { sfen: roots::MAX593, two: false }, 0);
    fam(Fam::Plies, 0);
    v.push(crate::touch::any_task());
    for s in roots::SEEDS {
        v.push(tree(s, 2));
    }
    v.push(games(16, 256, 4, 1));
    v.push(long(roots::CYCLE_ROOT, roots::CYCLE, 65534, 1));
    v.push(family(Fam::Neighbours { sfen: roots::MAXNOKING, two: false }, 0));
    v
}
