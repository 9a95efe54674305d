//! Software stand-ins for the AArch64 vector intrinsics, lane by lane as the architecture manual defines them.
//! Used by a generated copy of the library so that its AArch64 board code runs on this machine.
#![allow(dead_code, non_camel_case_types, non_snake_case, clippy::all, unused_macros)]

macro_rules! vecs { ($($t:ident $e:ty, $n:literal;)*) => { $(
    #[derive(Clone, Copy, Debug)] #[repr(C, align(8))] pub struct $t(pub [$e; $n]);
)* } }
vecs! { uint8x16_t u8, 16; uint16x8_t u16, 8; uint32x4_t u32, 4; uint64x2_t u64, 2;
        uint8x8_t u8, 8; uint16x4_t u16, 4; uint32x2_t u32, 2; uint64x1_t u64, 1;
        int8x16_t i8, 16; int16x8_t i16, 8; int32x4_t i32, 4; int64x2_t i64, 2; }
#[derive(Clone, Copy, Debug)] #[repr(C)] pub struct uint64x2x2_t(pub uint64x2_t, pub uint64x2_t);

macro_rules! bin { ($($name:ident $t:ty, |$a:ident, $b:ident| $x:expr;)*) => { $(
    #[inline(always)] pub fn $name(x: $t, y: $t) -> $t { let mut r = x; let mut i = 0; while i < r.0.len() { let ($a, $b) = (x.0[i], y.0[i]); r.0[i] = $x; i += 1; } r }
)* } }
macro_rules! un { ($($name:ident $t:ty, |$a:ident| $x:expr;)*) => { $(
    #[inline(always)] pub fn $name(x: $t) -> $t { let mut r = x; let mut i = 0; while i < r.0.len() { let $a = x.0[i]; r.0[i] = $x; i += 1; } r }
)* } }
macro_rules! lanes { ($t:ident $e:ty, $n:literal, $and:ident $orr:ident $eor:ident $bic:ident $orn:ident $add:ident $sub:ident $ceq:ident $tst:ident $cgt:ident $cge:ident $clt:ident $cle:ident $max:ident $min:ident $dup:ident $mov:ident $ld:ident $st:ident $get:ident $set:ident $shl:ident $shr:ident $qadd:ident $qsub:ident $ceqz:ident $bsl:ident) => {
    bin! {
        $and $t, |a, b| a & b; $orr $t, |a, b| a | b; $eor $t, |a, b| a ^ b; $bic $t, |a, b| a & !b; $orn $t, |a, b| a | !b;
        $add $t, |a, b| a.wrapping_add(b); $sub $t, |a, b| a.wrapping_sub(b);
        $ceq $t, |a, b| if a == b { !0 } else { 0 }; $tst $t, |a, b| if a & b != 0 { !0 } else { 0 };
        $cgt $t, |a, b| if a > b { !0 } else { 0 }; $cge $t, |a, b| if a >= b { !0 } else { 0 };
        $clt $t, |a, b| if a < b { !0 } else { 0 }; $cle $t, |a, b| if a <= b { !0 } else { 0 };
        $max $t, |a, b| a.max(b); $min $t, |a, b| a.min(b);
        $qadd $t, |a, b| a.saturating_add(b); $qsub $t, |a, b| a.saturating_sub(b);
    }
    un! { $ceqz $t, |a| if a == 0 { !0 } else { 0 }; }
    #[inline(always)] pub fn $bsl(m: $t, x: $t, y: $t) -> $t { let mut r = x; let mut i = 0; while i < $n { r.0[i] = x.0[i] & m.0[i] | y.0[i] & !m.0[i]; i += 1; } r }
    #[inline(always)] pub fn $dup(x: $e) -> $t { $t([x; $n]) }
    #[inline(always)] pub fn $mov(x: $e) -> $t { $t([x; $n]) }
    #[inline(always)] pub unsafe fn $ld(p: *const $e) -> $t { $t(core::ptr::read_unaligned(p as *const [$e; $n])) }
    #[inline(always)] pub unsafe fn $st(p: *mut $e, x: $t) { core::ptr::write_unaligned(p as *mut [$e; $n], x.0) }
    #[inline(always)] pub fn $get<const I: i32>(x: $t) -> $e { x.0[I as usize] }
    #[inline(always)] pub fn $set<const I: i32>(v: $e, x: $t) -> $t { let mut r = x; r.0[I as usize] = v; r }
    #[inline(always)] pub fn $shl<const N: i32>(x: $t) -> $t { let mut r = x; let mut i = 0; while i < $n { r.0[i] = x.0[i] << N; i += 1; } r }
    #[inline(always)] pub fn $shr<const N: i32>(x: $t) -> $t { let mut r = x; let mut i = 0; while i < $n { r.0[i] = if N as u32 >= <$e>::BITS { 0 } else { x.0[i] >> N }; i += 1; } r }
} }
lanes! { uint64x2_t u64, 2, vandq_u64 vorrq_u64 veorq_u64 vbicq_u64 vornq_u64 vaddq_u64 vsubq_u64 vceqq_u64 vtstq_u64 vcgtq_u64 vcgeq_u64 vcltq_u64 vcleq_u64 vmaxq_u64_ vminq_u64_ vdupq_n_u64 vmovq_n_u64 vld1q_u64 vst1q_u64 vgetq_lane_u64 vsetq_lane_u64 vshlq_n_u64 vshrq_n_u64 vqaddq_u64 vqsubq_u64 vceqzq_u64 vbslq_u64 }
lanes! { uint32x4_t u32, 4, vandq_u32 vorrq_u32 veorq_u32 vbicq_u32 vornq_u32 vaddq_u32 vsubq_u32 vceqq_u32 vtstq_u32 vcgtq_u32 vcgeq_u32 vcltq_u32 vcleq_u32 vmaxq_u32 vminq_u32 vdupq_n_u32 vmovq_n_u32 vld1q_u32 vst1q_u32 vgetq_lane_u32 vsetq_lane_u32 vshlq_n_u32 vshrq_n_u32 vqaddq_u32 vqsubq_u32 vceqzq_u32 vbslq_u32 }
lanes! { uint16x8_t u16, 8, vandq_u16 vorrq_u16 veorq_u16 vbicq_u16 vornq_u16 vaddq_u16 vsubq_u16 vceqq_u16 vtstq_u16 vcgtq_u16 vcgeq_u16 vcltq_u16 vcleq_u16 vmaxq_u16 vminq_u16 vdupq_n_u16 vmovq_n_u16 vld1q_u16 vst1q_u16 vgetq_lane_u16 vsetq_lane_u16 vshlq_n_u16 vshrq_n_u16 vqaddq_u16 vqsubq_u16 vceqzq_u16 vbslq_u16 }
lanes! { uint8x16_t u8, 16, vandq_u8 vorrq_u8 veorq_u8 vbicq_u8 vornq_u8 vaddq_u8 vsubq_u8 vceqq_u8 vtstq_u8 vcgtq_u8 vcgeq_u8 vcltq_u8 vcleq_u8 vmaxq_u8 vminq_u8 vdupq_n_u8 vmovq_n_u8 vld1q_u8 vst1q_u8 vgetq_lane_u8 vsetq_lane_u8 vshlq_n_u8 vshrq_n_u8 vqaddq_u8 vqsubq_u8 vceqzq_u8 vbslq_u8 }
lanes! { uint64x1_t u64, 1, vand_u64 vorr_u64 veor_u64 vbic_u64 vorn_u64 vadd_u64 vsub_u64 vceq_u64 vtst_u64 vcgt_u64 vcge_u64 vclt_u64 vcle_u64 vmax_u64_ vmin_u64_ vdup_n_u64 vmov_n_u64 vld1_u64 vst1_u64 vget_lane_u64 vset_lane_u64 vshl_n_u64 vshr_n_u64 vqadd_u64 vqsub_u64 vceqz_u64 vbsl_u64 }
lanes! { uint32x2_t u32, 2, vand_u32 vorr_u32 veor_u32 vbic_u32 vorn_u32 vadd_u32 vsub_u32 vceq_u32 vtst_u32 vcgt_u32 vcge_u32 vclt_u32 vcle_u32 vmax_u32 vmin_u32 vdup_n_u32 vmov_n_u32 vld1_u32 vst1_u32 vget_lane_u32 vset_lane_u32 vshl_n_u32 vshr_n_u32 vqadd_u32 vqsub_u32 vceqz_u32 vbsl_u32 }
lanes! { uint16x4_t u16, 4, vand_u16 vorr_u16 veor_u16 vbic_u16 vorn_u16 vadd_u16 vsub_u16 vceq_u16 vtst_u16 vcgt_u16 vcge_u16 vclt_u16 vcle_u16 vmax_u16 vmin_u16 vdup_n_u16 vmov_n_u16 vld1_u16 vst1_u16 vget_lane_u16 vset_lane_u16 vshl_n_u16 vshr_n_u16 vqadd_u16 vqsub_u16 vceqz_u16 vbsl_u16 }
lanes! { uint8x8_t u8, 8, vand_u8 vorr_u8 veor_u8 vbic_u8 vorn_u8 vadd_u8 vsub_u8 vceq_u8 vtst_u8 vcgt_u8 vcge_u8 vclt_u8 vcle_u8 vmax_u8 vmin_u8 vdup_n_u8 vmov_n_u8 vld1_u8 vst1_u8 vget_lane_u8 vset_lane_u8 vshl_n_u8 vshr_n_u8 vqadd_u8 vqsub_u8 vceqz_u8 vbsl_u8 }
un! { vmvnq_u8 uint8x16_t, |a| !a; vmvnq_u16 uint16x8_t, |a| !a; vmvnq_u32 uint32x4_t, |a| !a; vmvn_u8 uint8x8_t, |a| !a; vmvn_u32 uint32x2_t, |a| !a;
      vcntq_u8 uint8x16_t, |a| a.count_ones() as u8; vcnt_u8 uint8x8_t, |a| a.count_ones() as u8;
      vrbitq_u8 uint8x16_t, |a| a.reverse_bits(); vclzq_u32 uint32x4_t, |a| a.leading_zeros(); }
macro_rules! narrow { ($($q:ident $m:ident $from:ident $to:ident $e:ty, $n:literal;)*) => { $(
    #[inline(always)] pub fn $q(x: $from) -> $to { let mut r = [0; $n]; for i in 0..$n { r[i] = if x.0[i] > <$e>::MAX as _ { <$e>::MAX } else { x.0[i] as $e }; } $to(r) }
    #[inline(always)] pub fn $m(x: $from) -> $to { let mut r = [0; $n]; for i in 0..$n { r[i] = x.0[i] as $e; } $to(r) }
)* } }
narrow! { vqmovn_u64 vmovn_u64 uint64x2_t uint32x2_t u32, 2; vqmovn_u32 vmovn_u32 uint32x4_t uint16x4_t u16, 4; vqmovn_u16 vmovn_u16 uint16x8_t uint8x8_t u8, 8; }
macro_rules! cast { ($($name:ident $from:ident $to:ident;)*) => { $(
    #[inline(always)] pub fn $name(x: $from) -> $to { unsafe { core::mem::transmute(x) } }
)* } }
cast! {
    vreinterpret_u64_u32 uint32x2_t uint64x1_t; vreinterpret_u64_u16 uint16x4_t uint64x1_t; vreinterpret_u64_u8 uint8x8_t uint64x1_t;
    vreinterpret_u32_u64 uint64x1_t uint32x2_t; vreinterpret_u8_u64 uint64x1_t uint8x8_t; vreinterpret_u16_u64 uint64x1_t uint16x4_t; vreinterpret_u8_u32 uint32x2_t uint8x8_t;
    vreinterpretq_u64_u32 uint32x4_t uint64x2_t; vreinterpretq_u64_u16 uint16x8_t uint64x2_t; vreinterpretq_u64_u8 uint8x16_t uint64x2_t;
    vreinterpretq_u32_u64 uint64x2_t uint32x4_t; vreinterpretq_u16_u64 uint64x2_t uint16x8_t; vreinterpretq_u8_u64 uint64x2_t uint8x16_t;
    vreinterpretq_u8_u32 uint32x4_t uint8x16_t; vreinterpretq_u32_u8 uint8x16_t uint32x4_t;
    vreinterpretq_s64_u64 uint64x2_t int64x2_t; vreinterpretq_u64_s64 int64x2_t uint64x2_t;
}
#[inline(always)] pub fn vreinterpretq_u64_u64(x: uint64x2_t) -> uint64x2_t { x }
#[inline(always)] pub fn vget_low_u64(x: uint64x2_t) -> uint64x1_t { uint64x1_t([x.0[0]]) }
#[inline(always)] pub fn vget_high_u64(x: uint64x2_t) -> uint64x1_t { uint64x1_t([x.0[1]]) }
#[inline(always)] pub fn vget_low_u32(x: uint32x4_t) -> uint32x2_t { uint32x2_t([x.0[0], x.0[1]]) }
#[inline(always)] pub fn vget_high_u32(x: uint32x4_t) -> uint32x2_t { uint32x2_t([x.0[2], x.0[3]]) }
#[inline(always)] pub fn vcombine_u64(x: uint64x1_t, y: uint64x1_t) -> uint64x2_t { uint64x2_t([x.0[0], y.0[0]]) }
#[inline(always)] pub fn vcreate_u64(x: u64) -> uint64x1_t { uint64x1_t([x]) }
#[inline(always)] pub fn vextq_u64<const N: i32>(x: uint64x2_t, y: uint64x2_t) -> uint64x2_t { if N == 0 { x } else { uint64x2_t([x.0[1], y.0[0]]) } }
#[inline(always)] pub fn vzip1q_u64(x: uint64x2_t, y: uint64x2_t) -> uint64x2_t { uint64x2_t([x.0[0], y.0[0]]) }
#[inline(always)] pub fn vzip2q_u64(x: uint64x2_t, y: uint64x2_t) -> uint64x2_t { uint64x2_t([x.0[1], y.0[1]]) }
#[inline(always)] pub fn vaddvq_u64(x: uint64x2_t) -> u64 { x.0[0].wrapping_add(x.0[1]) }
#[inline(always)] pub fn vaddvq_u8(x: uint8x16_t) -> u8 { x.0.iter().fold(0u8, |a, b| a.wrapping_add(*b)) }
#[inline(always)] pub fn vaddlvq_u8(x: uint8x16_t) -> u16 { x.0.iter().map(|&b| b as u16).sum() }
#[inline(always)] pub fn vmaxvq_u32(x: uint32x4_t) -> u32 { x.0.iter().copied().max().unwrap() }
#[inline(always)] pub fn vmaxvq_u8(x: uint8x16_t) -> u8 { x.0.iter().copied().max().unwrap() }
#[inline(always)] pub fn vminvq_u32(x: uint32x4_t) -> u32 { x.0.iter().copied().min().unwrap() }
#[inline(always)] pub fn vrev64q_u8(x: uint8x16_t) -> uint8x16_t { let mut r = x; for i in 0..16 { r.0[i] = x.0[i / 8 * 8 + 7 - i % 8]; } r }
#[inline(always)] pub fn vshlq_u64(x: uint64x2_t, n: int64x2_t) -> uint64x2_t { let mut r = x; for i in 0..2 { let s = n.0[i] as i8; r.0[i] = if s >= 64 || s <= -64 { 0 } else if s >= 0 { x.0[i] << s } else { x.0[i] >> -s }; } r }
#[inline(always)] pub fn vdupq_n_s64(x: i64) -> int64x2_t { int64x2_t([x; 2]) }
#[inline(always)] pub fn vceqq_s64(x: int64x2_t, y: int64x2_t) -> uint64x2_t { uint64x2_t([if x.0[0] == y.0[0] { !0 } else { 0 }, if x.0[1] == y.0[1] { !0 } else { 0 }]) }
#[inline(always)] pub unsafe fn vld1q_dup_u64(p: *const u64) -> uint64x2_t { uint64x2_t([*p; 2]) }
