//! Fixed roots: dense positions, and lines of play generated by the model alone.

use crate::cx::mix;
use crate::model::*;

pub const MAX593: &str = "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1";
/// The record position without the opponent's king: its list does not fit (known finding).
pub const MAXNOKING: &str = "R8/2K1S1SS1/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1";

pub const SEEDS: &[&str] = &[
    "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1",
    // middle game and end game positions with many captures, promotions, drops and checks
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1",
    "8l/1l+R2P3/p2pBG1pp/kps1p4/Nn1P2G2/P1P1P2PP/1PS6/1KSG3+r1/LN2+p3L w Sbgn3p 124",
    MAX593,
    "l4S2l/4g1gs1/5p1p1/pr2N1pkp/4Gn3/PP3PPPP/2GPP4/1K7/L3r+s2L w BS2N5Pb 1",
    "6n1l/2+S1k4/2lp4p/1np1B2b1/3PP4/1N1S3rP/1P2+pPP+p1/1p1G5/3KG2r1 b GSN2L4Pgs2p 1",
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL b RGgsn5p 1",
    // both kings far advanced, promoted pieces everywhere
    "1+P1+P1K3/+R3+B1+P2/2+N1+S4/9/4+n4/9/2+p1+s1+p2/+r3+b4/3k1+p3 b GSNL3Pgsnl3p 1",
    // no king for the attacker, as in mate problems
    "4k4/9/4P4/9/9/9/9/9/9 b G2r2b3g4s4n4l17p 1",
    "3sks3/9/4+P4/9/9/9/9/9/9 b S2r2b4gs4n4l17p 1",
    // in check, double check, mate and stalemate roots
    "4k4/4+P4/4G4/9/9/9/9/9/4K4 w 2r2b3g4s4n4l17p 1",
    "4k4/9/3N1N3/9/4R4/9/9/9/4K4 w r2b4g4s2n4l18p 1",
    "k8/2+P6/1K7/9/9/9/9/9/9 w 2R2B4G4S4N4L17P 1",
    "4r4/9/4l4/9/2b1P1b2/4S4/3GKG3/9/r3N4 b 2g3s3n3l17p 1",
    "9/4k4/3+R1+B3/4L4/9/4K4/9/4l4/4r4 w b4g4s4n2l18p 1",
];

fn pick(st: &St, seed: u64, v: &mut Vec<Mv>) -> Option<Mv> {
    st.legal(v);
    if v.is_empty() {
        return None;
    }
    v.sort();
    let h = mix(seed);
    // lively play: often prefer captures, promotions and checks
    if h & 3 != 0 {
        let lively: Vec<Mv> = v
            .iter()
            .copied()
            .filter(|&m| m.promo() || !m.is_drop() && st.b[m.to() as usize] != 0 || st.apply(m).in_check())
            .collect();
        if !lively.is_empty() {
            return Some(lively[(h >> 8) as usize % lively.len()]);
        }
    }
    Some(v[(h >> 8) as usize % v.len()])
}

/// A fixed line of play (the same in every run), at most `plies` long.
pub fn game(n: u64, root: &St, plies: usize) -> Vec<Mv> {
    let mut v = Vec::new();
    let mut st = *root;
    let mut out = vec![];
    for i in 0..plies {
        let Some(m) = pick(&st, n.wrapping_mul(0x1_0000_0001).wrapping_add(i as u64), &mut v) else { break };
        out.push(m);
        st = st.apply(m);
    }
    out
}

/// Ten plies that return to the same placement and hands, with captures and drops on both sides.
pub const CYCLE_ROOT: &str = "lnsgkgsnl/1r5b1/pppppp1pp/6p2/9/2P6/PP1PPPPPP/1B5R1/LNSGKGSNL b - 1";
pub const CYCLE: &str = "8h2b 3a2b B*8h 2b3a 5i5h B*2b 5h4h 5a5b 4h5i 5b5a";
pub const SHUTTLE: &str = "2h3h 8b7b 3h2h 7b8b";

pub fn moves(t: &str) -> Vec<Mv> {
    t.split_whitespace().map(|x| Mv::from_usi(x).unwrap()).collect()
}
