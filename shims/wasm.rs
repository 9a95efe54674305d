//! Software stand-ins for the WebAssembly SIMD intrinsics, as the WebAssembly specification defines them.
//! Used by a generated copy of the library so that its WebAssembly board code runs on this machine.
#![allow(dead_code, non_camel_case_types, clippy::all)]

/// Lane 0 in the low half.
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct v128(pub [u64; 2]);

pub const fn u64x2(a: u64, b: u64) -> v128 { v128([a, b]) }
pub const fn i64x2(a: i64, b: i64) -> v128 { v128([a as u64, b as u64]) }
pub const fn u32x4(a: u32, b: u32, c: u32, d: u32) -> v128 { v128([a as u64 | (b as u64) << 32, c as u64 | (d as u64) << 32]) }
macro_rules! bin { ($($n:ident |$a:ident, $b:ident| $x:expr;)*) => { $(
    #[inline(always)] pub fn $n(x: v128, y: v128) -> v128 { let f = |$a: u64, $b: u64| -> u64 { $x }; v128([f(x.0[0], y.0[0]), f(x.0[1], y.0[1])]) }
)* } }
bin! {
    v128_and |a, b| a & b; v128_or |a, b| a | b; v128_xor |a, b| a ^ b; v128_andnot |a, b| a & !b;
    u64x2_add |a, b| a.wrapping_add(b); i64x2_add |a, b| a.wrapping_add(b); u64x2_sub |a, b| a.wrapping_sub(b); i64x2_sub |a, b| a.wrapping_sub(b);
    u64x2_mul |a, b| a.wrapping_mul(b); i64x2_mul |a, b| a.wrapping_mul(b);
    u64x2_eq |a, b| if a == b { !0 } else { 0 }; i64x2_eq |a, b| if a == b { !0 } else { 0 };
    u64x2_ne |a, b| if a != b { !0 } else { 0 }; i64x2_ne |a, b| if a != b { !0 } else { 0 };
    i64x2_lt |a, b| if (a as i64) < b as i64 { !0 } else { 0 }; i64x2_gt |a, b| if a as i64 > b as i64 { !0 } else { 0 };
}
#[inline(always)] pub fn v128_not(x: v128) -> v128 { v128([!x.0[0], !x.0[1]]) }
#[inline(always)] pub fn v128_bitselect(x: v128, y: v128, m: v128) -> v128 { v128([x.0[0] & m.0[0] | y.0[0] & !m.0[0], x.0[1] & m.0[1] | y.0[1] & !m.0[1]]) }
#[inline(always)] pub fn v128_any_true(x: v128) -> bool { x.0[0] | x.0[1] != 0 }
#[inline(always)] pub fn u64x2_all_true(x: v128) -> bool { x.0[0] != 0 && x.0[1] != 0 }
#[inline(always)] pub fn i64x2_all_true(x: v128) -> bool { u64x2_all_true(x) }
#[inline(always)] pub fn u64x2_shl(x: v128, n: u32) -> v128 { v128([x.0[0] << (n & 63), x.0[1] << (n & 63)]) }
#[inline(always)] pub fn i64x2_shl(x: v128, n: u32) -> v128 { u64x2_shl(x, n) }
#[inline(always)] pub fn u64x2_shr(x: v128, n: u32) -> v128 { v128([x.0[0] >> (n & 63), x.0[1] >> (n & 63)]) }
#[inline(always)] pub fn i64x2_shr(x: v128, n: u32) -> v128 { v128([(x.0[0] as i64 >> (n & 63)) as u64, (x.0[1] as i64 >> (n & 63)) as u64]) }
#[inline(always)] pub fn u64x2_splat(a: u64) -> v128 { v128([a, a]) }
#[inline(always)] pub fn i64x2_splat(a: i64) -> v128 { v128([a as u64; 2]) }
#[inline(always)] pub fn u64x2_extract_lane<const I: usize>(x: v128) -> u64 { x.0[I] }
#[inline(always)] pub fn i64x2_extract_lane<const I: usize>(x: v128) -> i64 { x.0[I] as i64 }
#[inline(always)] pub fn u64x2_replace_lane<const I: usize>(x: v128, v: u64) -> v128 { let mut r = x; r.0[I] = v; r }
#[inline(always)] pub fn u64x2_shuffle<const I: usize, const J: usize>(x: v128, y: v128) -> v128 { let a = [x.0[0], x.0[1], y.0[0], y.0[1]]; v128([a[I], a[J]]) }
#[inline(always)] pub fn i64x2_shuffle<const I: usize, const J: usize>(x: v128, y: v128) -> v128 { u64x2_shuffle::<I, J>(x, y) }
#[inline(always)] pub unsafe fn v128_load(p: *const v128) -> v128 { core::ptr::read_unaligned(p) }
#[inline(always)] pub unsafe fn v128_store(p: *mut v128, x: v128) { core::ptr::write_unaligned(p, x) }
fn bytes(x: v128) -> [u8; 16] { let mut r = [0; 16]; r[..8].copy_from_slice(&x.0[0].to_le_bytes()); r[8..].copy_from_slice(&x.0[1].to_le_bytes()); r }
fn from_bytes(b: [u8; 16]) -> v128 { v128([u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())]) }
pub fn i8x16_popcnt(x: v128) -> v128 { from_bytes(bytes(x).map(|b| b.count_ones() as u8)) }
pub fn u8x16_popcnt(x: v128) -> v128 { i8x16_popcnt(x) }
pub fn i8x16_swizzle(x: v128, s: v128) -> v128 { let (a, i) = (bytes(x), bytes(s)); let mut r = [0; 16]; for k in 0..16 { r[k] = if i[k] < 16 { a[i[k] as usize] } else { 0 }; } from_bytes(r) }
pub fn u8x16_swizzle(x: v128, s: v128) -> v128 { i8x16_swizzle(x, s) }
