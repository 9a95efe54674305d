//! Per-thread exploration context: where we are (for replays and crash reports), what was counted,
//! and how a violation is raised.

use crate::model::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[repr(C)]
pub struct Slot {
    pub seq: u64,
    /// 0 idle, 1 inside a case
    pub busy: u32,
    pub job: u32,
    pub chunk: u32,
    pub path_len: u32,
    pub path: [u32; 64],
    pub b: [u8; 81],
    pub h: [u8; 16],
    pub side: u8,
    pub ply: u16,
    pub pad: [u8; 128],
}
pub const SLOT: usize = std::mem::size_of::<Slot>();

impl Slot {
    pub fn state(&self) -> St {
        let mut st = St::empty();
        st.b = self.b;
        for c in 0..2 {
            st.h[c].copy_from_slice(&self.h[c * 8..c * 8 + 8]);
        }
        st.side = self.side;
        st.ply = self.ply;
        st
    }
    pub fn moves(&self) -> Vec<Mv> {
        let n = (self.path_len as usize).min(64);
        self.path[..n].iter().map(|&x| Mv(x)).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    pub root: St,
    pub path: Vec<Mv>,
    pub job: String,
    pub chunk: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub v: [u64; N_STAT],
}
macro_rules! stats { ($($name:ident),* $(,)?) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy)] #[repr(usize)] pub enum S_ { $($name),*, _N }
    pub const N_STAT: usize = S_::_N as usize;
    pub const STAT_NAMES: [&str; N_STAT] = [$(stringify!($name)),*];
} }
stats!(
    states, transitions, takebacks, cases, comparisons, moves_listed, in_check, double_check, mates,
    stalemates, pawn_drop_mates_refused, pawn_drop_checks_offered, positions_without_a_king, drops,
    captures, promotions, checking_moves, discovered_checks, key_pairs, distinct_positions, panics, max_path, max_list,
);

pub struct Cx {
    pub flags: u32,
    pub slot: *mut Slot,
    pub stats: Stats,
    pub job: String,
    pub chunk: usize,
    pub samples: Vec<String>,
    pub sample_budget: u32,
    pub digest: u64,
    /// per-case digest lines wanted (job dump)
    pub dump: Option<Vec<(String, u64)>>,
    pub keys: Option<&'static crate::keys::KeyMaps>,
    pub(crate) stamp: Vec<u32>,
    pub(crate) stamp2: Vec<u32>,
    pub(crate) gen: u32,
    pub(crate) pool: Vec<Vec<Mv>>,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("panic: {m}{l}");
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

struct Raise(String);

impl Cx {
    pub fn new(flags: u32, slot: Option<*mut Slot>) -> Cx {
        let slot = slot.unwrap_or_else(|| Box::into_raw(Box::new(unsafe { std::mem::zeroed() })));
        Cx {
            flags,
            slot,
            stats: Stats::default(),
            job: String::new(),
            chunk: 0,
            samples: vec![],
            sample_budget: 0,
            digest: 0,
            dump: None,
            keys: None,
            stamp: vec![0; Mv::SPACE],
            stamp2: vec![0; Mv::SPACE],
            gen: 0,
            pool: vec![],
        }
    }
    #[inline]
    pub fn s(&mut self) -> &mut Slot {
        unsafe { &mut *self.slot }
    }
    #[inline]
    pub fn inc(&mut self, s: S_, n: u64) {
        self.stats.v[s as usize] += n;
    }
    #[inline]
    pub fn max(&mut self, s: S_, n: u64) {
        let e = &mut self.stats.v[s as usize];
        *e = (*e).max(n);
    }
    #[inline]
    pub fn has(&self, f: u32) -> bool {
        self.flags & f != 0
    }
    pub fn push(&mut self, m: Mv) {
        let s = self.s();
        let n = s.path_len as usize;
        if n < 64 {
            s.path[n] = m.0;
        }
        s.path_len += 1;
        s.seq += 1;
    }
    pub fn pop(&mut self) {
        self.s().path_len -= 1;
    }
    pub fn path(&mut self) -> Vec<Mv> {
        self.s().moves()
    }
    /// Raise a violation of the property being checked, at the current position.
    #[cold]
    #[inline(never)]
    pub fn fail(&self, msg: String) -> ! {
        resume_unwind(Box::new(Raise(msg)))
    }
    /// Run one case: a root state and whatever `f` does from there.
    pub fn case(&mut self, st: &St, f: impl FnOnce(&mut Cx)) -> Result<(), Viol> {
        {
            let s = self.s();
            s.b = st.b;
            s.h[..8].copy_from_slice(&st.h[0]);
            s.h[8..].copy_from_slice(&st.h[1]);
            s.side = st.side;
            s.ply = st.ply;
            s.path_len = 0;
            s.seq += 1;
            s.busy = 1;
        }
        self.stats.v[S_::cases as usize] += 1;
        if self.sample_budget > 0 {
            self.sample_budget -= 1;
            let t = st.sfen();
            self.samples.push(format!("{}: {}", self.job, t));
        }
        let d0 = self.digest;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if let Some(mut d) = self.dump.take() {
            d.push((st.sfen(), self.digest.wrapping_sub(d0)));
            self.dump = Some(d);
        }
        self.s().busy = 0;
        match r {
            Ok(()) => Ok(()),
            Err(e) => {
                if self.has(crate::mon::TOUCH) && !e.is::<Raise>() {
                    // C20 is about undefined behaviour: a panic is defined (and C03's business)
                    self.stats.v[S_::panics as usize] += 1;
                    return Ok(());
                }
                let msg = match e.downcast::<Raise>() {
                    Ok(r) => r.0,
                    Err(_) => format!("the library panicked: {}", last_panic()),
                };
                let root = self.s().state();
                Err(Viol { msg, root, path: self.path(), job: self.job.clone(), chunk: self.chunk })
            }
        }
    }
    pub(crate) fn take(&mut self) -> Vec<Mv> {
        self.pool.pop().unwrap_or_else(|| Vec::with_capacity(640))
    }
    pub(crate) fn give(&mut self, v: Vec<Mv>) {
        self.pool.push(v);
    }
    pub(crate) fn next_gen(&mut self) -> u32 {
        self.gen += 1;
        if self.gen == 0 {
            self.stamp.fill(0);
            self.stamp2.fill(0);
            self.gen = 1;
        }
        self.gen
    }
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
