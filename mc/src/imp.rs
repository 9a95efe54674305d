//! Adapter to the library under check. Uses the public API of `yasai::Position` only.

use crate::model::*;
use shogi_core::{Color, Move, PartialPosition, Piece, PieceKind, Square};
use std::sync::OnceLock;

pub type Pos = yasai::Position;

pub struct Tab {
    pub sq: [Square; 81],
    pub piece: [Option<Piece>; 32],
}
pub fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut sq = [Square::new(1, 1).unwrap(); 81];
        for s in 0..81u8 {
            sq[s as usize] = Square::new(file(s) as u8, rank(s) as u8).unwrap();
        }
        let mut piece = [None; 32];
        for k in 1..=14u8 {
            for c in 0..2u8 {
                piece[mk(k, c) as usize] = Some(Piece::new(KINDS[k as usize - 1], COLORS[c as usize]));
            }
        }
        Tab { sq, piece }
    })
}
pub const COLORS: [Color; 2] = [Color::Black, Color::White];
pub const KINDS: [PieceKind; 14] = [
    PieceKind::Pawn,
    PieceKind::Lance,
    PieceKind::Knight,
    PieceKind::Silver,
    PieceKind::Gold,
    PieceKind::Bishop,
    PieceKind::Rook,
    PieceKind::King,
    PieceKind::ProPawn,
    PieceKind::ProLance,
    PieceKind::ProKnight,
    PieceKind::ProSilver,
    PieceKind::ProBishop,
    PieceKind::ProRook,
];
fn kind_no(pk: PieceKind) -> u8 {
    match pk {
        PieceKind::Pawn => P,
        PieceKind::Lance => L,
        PieceKind::Knight => N,
        PieceKind::Silver => S,
        PieceKind::Gold => G,
        PieceKind::Bishop => B,
        PieceKind::Rook => R,
        PieceKind::King => K,
        PieceKind::ProPawn => TO,
        PieceKind::ProLance => NY,
        PieceKind::ProKnight => NK,
        PieceKind::ProSilver => NG,
        PieceKind::ProBishop => UM,
        PieceKind::ProRook => RY,
    }
}
fn color_no(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::White => 1,
    }
}
pub fn piece_no(p: Option<Piece>) -> u8 {
    match p {
        None => 0,
        Some(p) => mk(kind_no(p.piece_kind()), color_no(p.color())),
    }
}
fn sq_no(s: Square) -> u8 {
    (s.file() - 1) * 9 + s.rank() - 1
}

#[allow(deprecated)]
pub fn partial(st: &St) -> PartialPosition {
    let t = tab();
    let mut pp = PartialPosition::empty();
    for (s, &p) in st.b.iter().enumerate() {
        if p != 0 {
            pp.piece_set(t.sq[s], t.piece[p as usize]);
        }
    }
    for c in 0..2usize {
        let hand = pp.hand_of_a_player_mut(COLORS[c]);
        for k in 1..=7usize {
            for _ in 0..st.h[c][k] {
                *hand = hand.added(KINDS[k - 1]).expect("harness: hand overflow");
            }
        }
    }
    pp.side_to_move_set(COLORS[st.side as usize]);
    if st.ply != 1 {
        let _ = pp.ply_set(st.ply);
    }
    pp
}
pub fn build(st: &St) -> Pos {
    Pos::new(partial(st))
}
#[inline]
pub fn mv(m: Mv, side: u8) -> Move {
    let t = tab();
    if m.is_drop() {
        Move::Drop { piece: t.piece[mk(m.drop_kind(), side) as usize].unwrap(), to: t.sq[m.to() as usize] }
    } else {
        Move::Normal { from: t.sq[m.src() as usize], to: t.sq[m.to() as usize], promote: m.promo() }
    }
}
/// The library's move in model form; a drop of a piece of the wrong colour is no move at all.
#[inline]
pub fn unmv(m: Move, side: u8) -> Option<Mv> {
    match m {
        Move::Normal { from, to, promote } => Some(Mv::normal(sq_no(from), sq_no(to), promote)),
        Move::Drop { piece, to } => {
            if color_no(piece.color()) != side || kind_no(piece.piece_kind()) > 7 {
                return None;
            }
            Some(Mv::drop(kind_no(piece.piece_kind()), sq_no(to)))
        }
    }
}
pub fn hand_no(pos: &Pos, c: usize, k: usize) -> u8 {
    pos.hand(COLORS[c]).count(KINDS[k - 1]).unwrap_or(255)
}
/// Placement, hands, side and ply as the library reports them.
pub fn read(pos: &Pos) -> St {
    let t = tab();
    let mut st = St::empty();
    for s in 0..81 {
        st.b[s] = piece_no(pos.piece_at(t.sq[s]));
    }
    for c in 0..2 {
        for k in 1..=7 {
            st.h[c][k] = hand_no(pos, c, k);
        }
    }
    st.side = color_no(pos.side_to_move());
    st.ply = pos.ply();
    st
}
