//! Contracts of the coefficient types (C20), written by gen.py.  Every function
//! is the library's own, called with every value of its type; there are no loops.
#![allow(unused_imports, non_snake_case, dead_code)]
use annealers::variable::{ConvertForce, ConvertFrom, ConvertTo, ConvertWith, Real};

// what a float is, read from its bits: nothing here goes through a conversion
pub fn nan32(x: f32) -> bool { (x.to_bits() & 0x7fff_ffff) > 0x7f80_0000 }
pub fn nan64(x: f64) -> bool { (x.to_bits() & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 }
pub fn fin32(x: f32) -> bool { (x.to_bits() & 0x7f80_0000) != 0x7f80_0000 }
pub fn fin64(x: f64) -> bool { (x.to_bits() & 0x7ff0_0000_0000_0000) != 0x7ff0_0000_0000_0000 }
// m * 2^e with a sign is k
fn scaled(neg: bool, m: u128, e: i32, k: i128) -> bool {
	let a = k.unsigned_abs();
	if k != 0 && neg != (k < 0) { return false; }
	if m == 0 { return a == 0; }
	if e >= 0 { e < 128 && (m << e) >> e == m && m << e == a } else { e > -128 && (a << -e) >> -e == a && a << -e == m }
}
pub fn is32(x: f32, k: i128) -> bool {
	let b = x.to_bits();
	let (e, f) = ((b >> 23) & 0xff, b & 0x7f_ffff);
	if e == 0 { return f == 0 && k == 0; }
	e != 0xff && scaled(b >> 31 != 0, (f | 0x80_0000) as u128, e as i32 - 150, k)
}
pub fn is64(x: f64, k: i128) -> bool {
	let b = x.to_bits();
	let (e, f) = ((b >> 52) & 0x7ff, b & 0xf_ffff_ffff_ffff);
	if e == 0 { return f == 0 && k == 0; }
	e != 0x7ff && scaled(b >> 63 != 0, (f | 0x10_0000_0000_0000) as u128, e as i32 - 1075, k)
}
// k has at most n significant bits
pub fn fits(k: i128, n: u32) -> bool { let a = k.unsigned_abs(); a == 0 || 128 - a.leading_zeros() - a.trailing_zeros() <= n }
// two floats of the same value
pub fn eq32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || nan32(a) && nan32(b) || a.to_bits() << 1 == 0 && b.to_bits() << 1 == 0 }
pub fn eq64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || nan64(a) && nan64(b) || a.to_bits() << 1 == 0 && b.to_bits() << 1 == 0 }
// the same value in the other width, read from the bits
pub fn wide(a: f32, b: f64) -> bool {
	let (x, y) = (a.to_bits(), b.to_bits());
	if nan32(a) { return nan64(b); }
	if x >> 31 != (y >> 63) as u32 { return false; }
	let (e, f) = ((x >> 23) & 0xff, (x & 0x7f_ffff) as u64);
	let (d, g) = ((y >> 52) & 0x7ff, y & 0xf_ffff_ffff_ffff);
	if e == 0xff { return d == 0x7ff && g == 0; }
	if e != 0 { return d == e as u64 + 896 && g == f << 29; }
	if f == 0 { return d == 0 && g == 0; }
	let z = f.leading_zeros() - 41; // 23 bits: the leading one moves up by z + 1
	d == 896 - z as u64 && g == (f << (z + 1) & 0x7f_ffff) << 29
}
// order of floats that are not NaN, from the bits
fn rank64(x: f64) -> i128 { let b = x.to_bits(); let m = (b & 0x7fff_ffff_ffff_ffff) as i128; if b >> 63 != 0 { -m } else { m } }
fn rank32(x: f32) -> i128 { let b = x.to_bits(); let m = (b & 0x7fff_ffff) as i128; if b >> 31 != 0 { -m } else { m } }

#[cfg_attr(kani, kani::requires(a != i8::MIN))]
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == if a < 0 { -(a as i128) } else { a as i128 }))]
pub fn abs_i8(a: i8) -> i8 { <i8 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_i8)]
fn k_abs_i8() { abs_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r <= a && *r <= b && (*r == a || *r == b)))]
pub fn min_i8(a: i8, b: i8) -> i8 { <i8 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_i8)]
fn k_min_i8() { min_i8(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r >= a && *r >= b && (*r == a || *r == b)))]
pub fn max_i8(a: i8, b: i8) -> i8 { <i8 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_i8)]
fn k_max_i8() { max_i8(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r))]
pub fn finite_i8(a: i8) -> bool { <i8 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_i8)]
fn k_finite_i8() { finite_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(a as i128, 53) || is64(*r, a as i128)))]
pub fn as_f64_i8(a: i8) -> f64 { <i8 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_i8)]
fn k_as_f64_i8() { as_f64_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| (i as i128) < i8::MIN as i128 || (i as i128) > i8::MAX as i128 || *r as i128 == i as i128))]
pub fn fromi32_i8(i: i32) -> i8 { <i8 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_i8)]
fn k_fromi32_i8() { fromi32_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(i8, i8, i8, i8)| r.0 == i8::MAX && r.1 == i8::MIN && r.2 == 0 && r.3 == 1))]
pub fn limits_i8() -> (i8, i8, i8, i8) { (<i8 as Real>::MAX, <i8 as Real>::MIN, <i8 as Real>::zero(), <i8 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_i8)]
fn k_limits_i8() { limits_i8(); }
#[cfg_attr(kani, kani::requires(a != i16::MIN))]
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == if a < 0 { -(a as i128) } else { a as i128 }))]
pub fn abs_i16(a: i16) -> i16 { <i16 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_i16)]
fn k_abs_i16() { abs_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r <= a && *r <= b && (*r == a || *r == b)))]
pub fn min_i16(a: i16, b: i16) -> i16 { <i16 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_i16)]
fn k_min_i16() { min_i16(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r >= a && *r >= b && (*r == a || *r == b)))]
pub fn max_i16(a: i16, b: i16) -> i16 { <i16 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_i16)]
fn k_max_i16() { max_i16(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r))]
pub fn finite_i16(a: i16) -> bool { <i16 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_i16)]
fn k_finite_i16() { finite_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(a as i128, 53) || is64(*r, a as i128)))]
pub fn as_f64_i16(a: i16) -> f64 { <i16 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_i16)]
fn k_as_f64_i16() { as_f64_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| (i as i128) < i16::MIN as i128 || (i as i128) > i16::MAX as i128 || *r as i128 == i as i128))]
pub fn fromi32_i16(i: i32) -> i16 { <i16 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_i16)]
fn k_fromi32_i16() { fromi32_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(i16, i16, i16, i16)| r.0 == i16::MAX && r.1 == i16::MIN && r.2 == 0 && r.3 == 1))]
pub fn limits_i16() -> (i16, i16, i16, i16) { (<i16 as Real>::MAX, <i16 as Real>::MIN, <i16 as Real>::zero(), <i16 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_i16)]
fn k_limits_i16() { limits_i16(); }
#[cfg_attr(kani, kani::requires(a != i32::MIN))]
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == if a < 0 { -(a as i128) } else { a as i128 }))]
pub fn abs_i32(a: i32) -> i32 { <i32 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_i32)]
fn k_abs_i32() { abs_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r <= a && *r <= b && (*r == a || *r == b)))]
pub fn min_i32(a: i32, b: i32) -> i32 { <i32 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_i32)]
fn k_min_i32() { min_i32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r >= a && *r >= b && (*r == a || *r == b)))]
pub fn max_i32(a: i32, b: i32) -> i32 { <i32 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_i32)]
fn k_max_i32() { max_i32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r))]
pub fn finite_i32(a: i32) -> bool { <i32 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_i32)]
fn k_finite_i32() { finite_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(a as i128, 53) || is64(*r, a as i128)))]
pub fn as_f64_i32(a: i32) -> f64 { <i32 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_i32)]
fn k_as_f64_i32() { as_f64_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| (i as i128) < i32::MIN as i128 || (i as i128) > i32::MAX as i128 || *r as i128 == i as i128))]
pub fn fromi32_i32(i: i32) -> i32 { <i32 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_i32)]
fn k_fromi32_i32() { fromi32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(i32, i32, i32, i32)| r.0 == i32::MAX && r.1 == i32::MIN && r.2 == 0 && r.3 == 1))]
pub fn limits_i32() -> (i32, i32, i32, i32) { (<i32 as Real>::MAX, <i32 as Real>::MIN, <i32 as Real>::zero(), <i32 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_i32)]
fn k_limits_i32() { limits_i32(); }
#[cfg_attr(kani, kani::requires(a != i64::MIN))]
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == if a < 0 { -(a as i128) } else { a as i128 }))]
pub fn abs_i64(a: i64) -> i64 { <i64 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_i64)]
fn k_abs_i64() { abs_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r <= a && *r <= b && (*r == a || *r == b)))]
pub fn min_i64(a: i64, b: i64) -> i64 { <i64 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_i64)]
fn k_min_i64() { min_i64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r >= a && *r >= b && (*r == a || *r == b)))]
pub fn max_i64(a: i64, b: i64) -> i64 { <i64 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_i64)]
fn k_max_i64() { max_i64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r))]
pub fn finite_i64(a: i64) -> bool { <i64 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_i64)]
fn k_finite_i64() { finite_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(a as i128, 53) || is64(*r, a as i128)))]
pub fn as_f64_i64(a: i64) -> f64 { <i64 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_i64)]
fn k_as_f64_i64() { as_f64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| (i as i128) < i64::MIN as i128 || (i as i128) > i64::MAX as i128 || *r as i128 == i as i128))]
pub fn fromi32_i64(i: i32) -> i64 { <i64 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_i64)]
fn k_fromi32_i64() { fromi32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(i64, i64, i64, i64)| r.0 == i64::MAX && r.1 == i64::MIN && r.2 == 0 && r.3 == 1))]
pub fn limits_i64() -> (i64, i64, i64, i64) { (<i64 as Real>::MAX, <i64 as Real>::MIN, <i64 as Real>::zero(), <i64 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_i64)]
fn k_limits_i64() { limits_i64(); }
#[cfg_attr(kani, kani::requires(a != i128::MIN))]
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == if a < 0 { -(a as i128) } else { a as i128 }))]
pub fn abs_i128(a: i128) -> i128 { <i128 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_i128)]
fn k_abs_i128() { abs_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r <= a && *r <= b && (*r == a || *r == b)))]
pub fn min_i128(a: i128, b: i128) -> i128 { <i128 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_i128)]
fn k_min_i128() { min_i128(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r >= a && *r >= b && (*r == a || *r == b)))]
pub fn max_i128(a: i128, b: i128) -> i128 { <i128 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_i128)]
fn k_max_i128() { max_i128(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r))]
pub fn finite_i128(a: i128) -> bool { <i128 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_i128)]
fn k_finite_i128() { finite_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(a as i128, 53) || is64(*r, a as i128)))]
pub fn as_f64_i128(a: i128) -> f64 { <i128 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_i128)]
fn k_as_f64_i128() { as_f64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| (i as i128) < i128::MIN as i128 || (i as i128) > i128::MAX as i128 || *r as i128 == i as i128))]
pub fn fromi32_i128(i: i32) -> i128 { <i128 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_i128)]
fn k_fromi32_i128() { fromi32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(i128, i128, i128, i128)| r.0 == i128::MAX && r.1 == i128::MIN && r.2 == 0 && r.3 == 1))]
pub fn limits_i128() -> (i128, i128, i128, i128) { (<i128 as Real>::MAX, <i128 as Real>::MIN, <i128 as Real>::zero(), <i128 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_i128)]
fn k_limits_i128() { limits_i128(); }
#[cfg_attr(kani, kani::ensures(|r: &f32| (nan32(a) && nan32(*r)) || !nan32(a) && rank32(*r) == rank32(a).abs()))]
pub fn abs_f32(a: f32) -> f32 { <f32 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_f32)]
fn k_abs_f32() { abs_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| if nan32(a) { eq32(*r, b) } else if nan32(b) { eq32(*r, a) } else { rank32(*r) <= rank32(a) && rank32(*r) <= rank32(b) && (rank32(*r) == rank32(a) || rank32(*r) == rank32(b)) && !nan32(*r) }))]
pub fn min_f32(a: f32, b: f32) -> f32 { <f32 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_f32)]
fn k_min_f32() { min_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| if nan32(a) { eq32(*r, b) } else if nan32(b) { eq32(*r, a) } else { rank32(*r) >= rank32(a) && rank32(*r) >= rank32(b) && (rank32(*r) == rank32(a) || rank32(*r) == rank32(b)) && !nan32(*r) }))]
pub fn max_f32(a: f32, b: f32) -> f32 { <f32 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_f32)]
fn k_max_f32() { max_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r == fin32(a)))]
pub fn finite_f32(a: f32) -> bool { <f32 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_f32)]
fn k_finite_f32() { finite_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(a, *r)))]
pub fn as_f64_f32(a: f32) -> f64 { <f32 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_f32)]
fn k_as_f64_f32() { as_f64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(i as i128, 24) || is32(*r, i as i128)))]
pub fn fromi32_f32(i: i32) -> f32 { <f32 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_f32)]
fn k_fromi32_f32() { fromi32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(f32, f32, f32, f32)| r.0.to_bits() == 0x7f7f_ffff && r.1.to_bits() == 0xff7f_ffff && is32(r.2, 0) && is32(r.3, 1)))]
pub fn limits_f32() -> (f32, f32, f32, f32) { (<f32 as Real>::MAX, <f32 as Real>::MIN, <f32 as Real>::zero(), <f32 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_f32)]
fn k_limits_f32() { limits_f32(); }
#[cfg_attr(kani, kani::ensures(|r: &f64| (nan64(a) && nan64(*r)) || !nan64(a) && rank64(*r) == rank64(a).abs()))]
pub fn abs_f64(a: f64) -> f64 { <f64 as Real>::abs(a) }
#[cfg(kani)]
#[kani::proof_for_contract(abs_f64)]
fn k_abs_f64() { abs_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| if nan64(a) { eq64(*r, b) } else if nan64(b) { eq64(*r, a) } else { rank64(*r) <= rank64(a) && rank64(*r) <= rank64(b) && (rank64(*r) == rank64(a) || rank64(*r) == rank64(b)) && !nan64(*r) }))]
pub fn min_f64(a: f64, b: f64) -> f64 { <f64 as Real>::min(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(min_f64)]
fn k_min_f64() { min_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| if nan64(a) { eq64(*r, b) } else if nan64(b) { eq64(*r, a) } else { rank64(*r) >= rank64(a) && rank64(*r) >= rank64(b) && (rank64(*r) == rank64(a) || rank64(*r) == rank64(b)) && !nan64(*r) }))]
pub fn max_f64(a: f64, b: f64) -> f64 { <f64 as Real>::max(a, b) }
#[cfg(kani)]
#[kani::proof_for_contract(max_f64)]
fn k_max_f64() { max_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &bool| *r == fin64(a)))]
pub fn finite_f64(a: f64) -> bool { <f64 as Real>::is_finite(a) }
#[cfg(kani)]
#[kani::proof_for_contract(finite_f64)]
fn k_finite_f64() { finite_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, a)))]
pub fn as_f64_f64(a: f64) -> f64 { <f64 as Real>::as_f64(&a) }
#[cfg(kani)]
#[kani::proof_for_contract(as_f64_f64)]
fn k_as_f64_f64() { as_f64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(i as i128, 53) || is64(*r, i as i128)))]
pub fn fromi32_f64(i: i32) -> f64 { <f64 as Real>::from_i32(i) }
#[cfg(kani)]
#[kani::proof_for_contract(fromi32_f64)]
fn k_fromi32_f64() { fromi32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &(f64, f64, f64, f64)| r.0.to_bits() == 0x7fef_ffff_ffff_ffff && r.1.to_bits() == 0xffef_ffff_ffff_ffff && is64(r.2, 0) && is64(r.3, 1)))]
pub fn limits_f64() -> (f64, f64, f64, f64) { (<f64 as Real>::MAX, <f64 as Real>::MIN, <f64 as Real>::zero(), <f64 as Real>::one()) }
#[cfg(kani)]
#[kani::proof_for_contract(limits_f64)]
fn k_limits_f64() { limits_f64(); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !wide(k, f) || eq32(*r, k)))]
pub fn fromf64_f32(f: f64, k: f32) -> f32 { <f32 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_f32)]
fn k_fromf64_f32() { fromf64_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, f)))]
pub fn fromf64_f64(f: f64) -> f64 { <f64 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_f64)]
fn k_fromf64_f64() { fromf64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| !is64(f, k as i128) || *r == k))]
pub fn fromf64_i8(f: f64, k: i8) -> i8 { <i8 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_i8)]
fn k_fromf64_i8() { fromf64_i8(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| !is64(f, k as i128) || *r == k))]
pub fn fromf64_i16(f: f64, k: i16) -> i16 { <i16 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_i16)]
fn k_fromf64_i16() { fromf64_i16(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| !is64(f, k as i128) || *r == k))]
pub fn fromf64_i32(f: f64, k: i32) -> i32 { <i32 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_i32)]
fn k_fromf64_i32() { fromf64_i32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| !is64(f, k as i128) || *r == k))]
pub fn fromf64_i64(f: f64, k: i64) -> i64 { <i64 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_i64)]
fn k_fromf64_i64() { fromf64_i64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| !is64(f, k as i128) || *r == k))]
pub fn fromf64_i128(f: f64, k: i128) -> i128 { <i128 as Real>::from_f64(f) }
#[cfg(kani)]
#[kani::proof_for_contract(fromf64_i128)]
fn k_fromf64_i128() { fromf64_i128(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == x as i128))]
pub fn from_i8_i8(x: i8) -> i8 { <i8 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_i8)]
fn k_from_i8_i8() { from_i8_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == x as i128))]
pub fn to_i8_i8(x: i8) -> i8 { <i8 as ConvertTo<i8>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_i8)]
fn k_to_i8_i8() { to_i8_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == x as i128))]
pub fn force_i8_i8(x: i8) -> i8 { <i8 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_i8)]
fn k_force_i8_i8() { force_i8_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == x as i128))]
pub fn lhs_i8_i8(x: i8) -> i8 { <i8 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_i8)]
fn k_lhs_i8_i8() { lhs_i8_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == x as i128))]
pub fn rhs_i8_i8(x: i8) -> i8 { <i8 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_i8)]
fn k_rhs_i8_i8() { rhs_i8_i8(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn from_i8_i16(x: i8) -> i16 { <i16 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_i16)]
fn k_from_i8_i16() { from_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn to_i8_i16(x: i8) -> i16 { <i8 as ConvertTo<i16>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_i16)]
fn k_to_i8_i16() { to_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn force_i8_i16(x: i8) -> i16 { <i8 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_i16)]
fn k_force_i8_i16() { force_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn lhs_i8_i16(x: i8) -> i16 { <i8 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_i16)]
fn k_lhs_i8_i16() { lhs_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn rhs_i8_i16(x: i8) -> i16 { <i16 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_i16)]
fn k_rhs_i8_i16() { rhs_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r == x))]
pub fn lhsw_i8_i16(x: i16) -> i16 { <i16 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_i16)]
fn k_lhsw_i8_i16() { lhsw_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r == x))]
pub fn rhsw_i8_i16(x: i16) -> i16 { <i8 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_i16)]
fn k_rhsw_i8_i16() { rhsw_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| x < i8::MIN as i16 || x > i8::MAX as i16 || *r as i128 == x as i128))]
pub fn narrow_i8_i16(x: i16) -> i8 { <i16 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_i16)]
fn k_narrow_i8_i16() { narrow_i8_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn from_i8_i32(x: i8) -> i32 { <i32 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_i32)]
fn k_from_i8_i32() { from_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn to_i8_i32(x: i8) -> i32 { <i8 as ConvertTo<i32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_i32)]
fn k_to_i8_i32() { to_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn force_i8_i32(x: i8) -> i32 { <i8 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_i32)]
fn k_force_i8_i32() { force_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn lhs_i8_i32(x: i8) -> i32 { <i8 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_i32)]
fn k_lhs_i8_i32() { lhs_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn rhs_i8_i32(x: i8) -> i32 { <i32 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_i32)]
fn k_rhs_i8_i32() { rhs_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r == x))]
pub fn lhsw_i8_i32(x: i32) -> i32 { <i32 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_i32)]
fn k_lhsw_i8_i32() { lhsw_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r == x))]
pub fn rhsw_i8_i32(x: i32) -> i32 { <i8 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_i32)]
fn k_rhsw_i8_i32() { rhsw_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| x < i8::MIN as i32 || x > i8::MAX as i32 || *r as i128 == x as i128))]
pub fn narrow_i8_i32(x: i32) -> i8 { <i32 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_i32)]
fn k_narrow_i8_i32() { narrow_i8_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn from_i8_i64(x: i8) -> i64 { <i64 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_i64)]
fn k_from_i8_i64() { from_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn to_i8_i64(x: i8) -> i64 { <i8 as ConvertTo<i64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_i64)]
fn k_to_i8_i64() { to_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn force_i8_i64(x: i8) -> i64 { <i8 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_i64)]
fn k_force_i8_i64() { force_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn lhs_i8_i64(x: i8) -> i64 { <i8 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_i64)]
fn k_lhs_i8_i64() { lhs_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn rhs_i8_i64(x: i8) -> i64 { <i64 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_i64)]
fn k_rhs_i8_i64() { rhs_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn lhsw_i8_i64(x: i64) -> i64 { <i64 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_i64)]
fn k_lhsw_i8_i64() { lhsw_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn rhsw_i8_i64(x: i64) -> i64 { <i8 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_i64)]
fn k_rhsw_i8_i64() { rhsw_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| x < i8::MIN as i64 || x > i8::MAX as i64 || *r as i128 == x as i128))]
pub fn narrow_i8_i64(x: i64) -> i8 { <i64 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_i64)]
fn k_narrow_i8_i64() { narrow_i8_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn from_i8_i128(x: i8) -> i128 { <i128 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_i128)]
fn k_from_i8_i128() { from_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn to_i8_i128(x: i8) -> i128 { <i8 as ConvertTo<i128>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_i128)]
fn k_to_i8_i128() { to_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn force_i8_i128(x: i8) -> i128 { <i8 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_i128)]
fn k_force_i8_i128() { force_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn lhs_i8_i128(x: i8) -> i128 { <i8 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_i128)]
fn k_lhs_i8_i128() { lhs_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn rhs_i8_i128(x: i8) -> i128 { <i128 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_i128)]
fn k_rhs_i8_i128() { rhs_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn lhsw_i8_i128(x: i128) -> i128 { <i128 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_i128)]
fn k_lhsw_i8_i128() { lhsw_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn rhsw_i8_i128(x: i128) -> i128 { <i8 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_i128)]
fn k_rhsw_i8_i128() { rhsw_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| x < i8::MIN as i128 || x > i8::MAX as i128 || *r as i128 == x as i128))]
pub fn narrow_i8_i128(x: i128) -> i8 { <i128 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_i128)]
fn k_narrow_i8_i128() { narrow_i8_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn from_i8_f32(x: i8) -> f32 { <f32 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_f32)]
fn k_from_i8_f32() { from_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn to_i8_f32(x: i8) -> f32 { <i8 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_f32)]
fn k_to_i8_f32() { to_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn force_i8_f32(x: i8) -> f32 { <i8 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_f32)]
fn k_force_i8_f32() { force_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn lhs_i8_f32(x: i8) -> f32 { <i8 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_f32)]
fn k_lhs_i8_f32() { lhs_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn rhs_i8_f32(x: i8) -> f32 { <f32 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_f32)]
fn k_rhs_i8_f32() { rhs_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhsw_i8_f32(x: f32) -> f32 { <f32 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_f32)]
fn k_lhsw_i8_f32() { lhsw_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhsw_i8_f32(x: f32) -> f32 { <i8 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_f32)]
fn k_rhsw_i8_f32() { rhsw_i8_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| !is32(x, k as i128) || *r == k))]
pub fn narrow_i8_f32(x: f32, k: i8) -> i8 { <f32 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_f32)]
fn k_narrow_i8_f32() { narrow_i8_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn from_i8_f64(x: i8) -> f64 { <f64 as ConvertFrom<i8>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i8_f64)]
fn k_from_i8_f64() { from_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn to_i8_f64(x: i8) -> f64 { <i8 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i8_f64)]
fn k_to_i8_f64() { to_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn force_i8_f64(x: i8) -> f64 { <i8 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i8_f64)]
fn k_force_i8_f64() { force_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn lhs_i8_f64(x: i8) -> f64 { <i8 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i8_f64)]
fn k_lhs_i8_f64() { lhs_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn rhs_i8_f64(x: i8) -> f64 { <f64 as ConvertWith<i8>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i8_f64)]
fn k_rhs_i8_f64() { rhs_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_i8_f64(x: f64) -> f64 { <f64 as ConvertWith<i8>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i8_f64)]
fn k_lhsw_i8_f64() { lhsw_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_i8_f64(x: f64) -> f64 { <i8 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i8_f64)]
fn k_rhsw_i8_f64() { rhsw_i8_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i8| !is64(x, k as i128) || *r == k))]
pub fn narrow_i8_f64(x: f64, k: i8) -> i8 { <f64 as ConvertForce<i8>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i8_f64)]
fn k_narrow_i8_f64() { narrow_i8_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn from_i16_i16(x: i16) -> i16 { <i16 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_i16)]
fn k_from_i16_i16() { from_i16_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn to_i16_i16(x: i16) -> i16 { <i16 as ConvertTo<i16>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_i16)]
fn k_to_i16_i16() { to_i16_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn force_i16_i16(x: i16) -> i16 { <i16 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_i16)]
fn k_force_i16_i16() { force_i16_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn lhs_i16_i16(x: i16) -> i16 { <i16 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_i16)]
fn k_lhs_i16_i16() { lhs_i16_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == x as i128))]
pub fn rhs_i16_i16(x: i16) -> i16 { <i16 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_i16)]
fn k_rhs_i16_i16() { rhs_i16_i16(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn from_i16_i32(x: i16) -> i32 { <i32 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_i32)]
fn k_from_i16_i32() { from_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn to_i16_i32(x: i16) -> i32 { <i16 as ConvertTo<i32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_i32)]
fn k_to_i16_i32() { to_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn force_i16_i32(x: i16) -> i32 { <i16 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_i32)]
fn k_force_i16_i32() { force_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn lhs_i16_i32(x: i16) -> i32 { <i16 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_i32)]
fn k_lhs_i16_i32() { lhs_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn rhs_i16_i32(x: i16) -> i32 { <i32 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_i32)]
fn k_rhs_i16_i32() { rhs_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r == x))]
pub fn lhsw_i16_i32(x: i32) -> i32 { <i32 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i16_i32)]
fn k_lhsw_i16_i32() { lhsw_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r == x))]
pub fn rhsw_i16_i32(x: i32) -> i32 { <i16 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i16_i32)]
fn k_rhsw_i16_i32() { rhsw_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| x < i16::MIN as i32 || x > i16::MAX as i32 || *r as i128 == x as i128))]
pub fn narrow_i16_i32(x: i32) -> i16 { <i32 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i16_i32)]
fn k_narrow_i16_i32() { narrow_i16_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn from_i16_i64(x: i16) -> i64 { <i64 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_i64)]
fn k_from_i16_i64() { from_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn to_i16_i64(x: i16) -> i64 { <i16 as ConvertTo<i64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_i64)]
fn k_to_i16_i64() { to_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn force_i16_i64(x: i16) -> i64 { <i16 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_i64)]
fn k_force_i16_i64() { force_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn lhs_i16_i64(x: i16) -> i64 { <i16 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_i64)]
fn k_lhs_i16_i64() { lhs_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn rhs_i16_i64(x: i16) -> i64 { <i64 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_i64)]
fn k_rhs_i16_i64() { rhs_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn lhsw_i16_i64(x: i64) -> i64 { <i64 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i16_i64)]
fn k_lhsw_i16_i64() { lhsw_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn rhsw_i16_i64(x: i64) -> i64 { <i16 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i16_i64)]
fn k_rhsw_i16_i64() { rhsw_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| x < i16::MIN as i64 || x > i16::MAX as i64 || *r as i128 == x as i128))]
pub fn narrow_i16_i64(x: i64) -> i16 { <i64 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i16_i64)]
fn k_narrow_i16_i64() { narrow_i16_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn from_i16_i128(x: i16) -> i128 { <i128 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_i128)]
fn k_from_i16_i128() { from_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn to_i16_i128(x: i16) -> i128 { <i16 as ConvertTo<i128>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_i128)]
fn k_to_i16_i128() { to_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn force_i16_i128(x: i16) -> i128 { <i16 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_i128)]
fn k_force_i16_i128() { force_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn lhs_i16_i128(x: i16) -> i128 { <i16 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_i128)]
fn k_lhs_i16_i128() { lhs_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn rhs_i16_i128(x: i16) -> i128 { <i128 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_i128)]
fn k_rhs_i16_i128() { rhs_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn lhsw_i16_i128(x: i128) -> i128 { <i128 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i16_i128)]
fn k_lhsw_i16_i128() { lhsw_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn rhsw_i16_i128(x: i128) -> i128 { <i16 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i16_i128)]
fn k_rhsw_i16_i128() { rhsw_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| x < i16::MIN as i128 || x > i16::MAX as i128 || *r as i128 == x as i128))]
pub fn narrow_i16_i128(x: i128) -> i16 { <i128 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i16_i128)]
fn k_narrow_i16_i128() { narrow_i16_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn from_i16_f32(x: i16) -> f32 { <f32 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_f32)]
fn k_from_i16_f32() { from_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn to_i16_f32(x: i16) -> f32 { <i16 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_f32)]
fn k_to_i16_f32() { to_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn force_i16_f32(x: i16) -> f32 { <i16 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_f32)]
fn k_force_i16_f32() { force_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn lhs_i16_f32(x: i16) -> f32 { <i16 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_f32)]
fn k_lhs_i16_f32() { lhs_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn rhs_i16_f32(x: i16) -> f32 { <f32 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_f32)]
fn k_rhs_i16_f32() { rhs_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhsw_i16_f32(x: f32) -> f32 { <f32 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i16_f32)]
fn k_lhsw_i16_f32() { lhsw_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhsw_i16_f32(x: f32) -> f32 { <i16 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i16_f32)]
fn k_rhsw_i16_f32() { rhsw_i16_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| !is32(x, k as i128) || *r == k))]
pub fn narrow_i16_f32(x: f32, k: i16) -> i16 { <f32 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i16_f32)]
fn k_narrow_i16_f32() { narrow_i16_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn from_i16_f64(x: i16) -> f64 { <f64 as ConvertFrom<i16>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i16_f64)]
fn k_from_i16_f64() { from_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn to_i16_f64(x: i16) -> f64 { <i16 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i16_f64)]
fn k_to_i16_f64() { to_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn force_i16_f64(x: i16) -> f64 { <i16 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i16_f64)]
fn k_force_i16_f64() { force_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn lhs_i16_f64(x: i16) -> f64 { <i16 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i16_f64)]
fn k_lhs_i16_f64() { lhs_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn rhs_i16_f64(x: i16) -> f64 { <f64 as ConvertWith<i16>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i16_f64)]
fn k_rhs_i16_f64() { rhs_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_i16_f64(x: f64) -> f64 { <f64 as ConvertWith<i16>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i16_f64)]
fn k_lhsw_i16_f64() { lhsw_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_i16_f64(x: f64) -> f64 { <i16 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i16_f64)]
fn k_rhsw_i16_f64() { rhsw_i16_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i16| !is64(x, k as i128) || *r == k))]
pub fn narrow_i16_f64(x: f64, k: i16) -> i16 { <f64 as ConvertForce<i16>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i16_f64)]
fn k_narrow_i16_f64() { narrow_i16_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn from_i32_i32(x: i32) -> i32 { <i32 as ConvertFrom<i32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i32_i32)]
fn k_from_i32_i32() { from_i32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn to_i32_i32(x: i32) -> i32 { <i32 as ConvertTo<i32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i32_i32)]
fn k_to_i32_i32() { to_i32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn force_i32_i32(x: i32) -> i32 { <i32 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i32_i32)]
fn k_force_i32_i32() { force_i32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn lhs_i32_i32(x: i32) -> i32 { <i32 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i32_i32)]
fn k_lhs_i32_i32() { lhs_i32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == x as i128))]
pub fn rhs_i32_i32(x: i32) -> i32 { <i32 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i32_i32)]
fn k_rhs_i32_i32() { rhs_i32_i32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn from_i32_i64(x: i32) -> i64 { <i64 as ConvertFrom<i32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i32_i64)]
fn k_from_i32_i64() { from_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn to_i32_i64(x: i32) -> i64 { <i32 as ConvertTo<i64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i32_i64)]
fn k_to_i32_i64() { to_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn force_i32_i64(x: i32) -> i64 { <i32 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i32_i64)]
fn k_force_i32_i64() { force_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn lhs_i32_i64(x: i32) -> i64 { <i32 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i32_i64)]
fn k_lhs_i32_i64() { lhs_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn rhs_i32_i64(x: i32) -> i64 { <i64 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i32_i64)]
fn k_rhs_i32_i64() { rhs_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn lhsw_i32_i64(x: i64) -> i64 { <i64 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i32_i64)]
fn k_lhsw_i32_i64() { lhsw_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r == x))]
pub fn rhsw_i32_i64(x: i64) -> i64 { <i32 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i32_i64)]
fn k_rhsw_i32_i64() { rhsw_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| x < i32::MIN as i64 || x > i32::MAX as i64 || *r as i128 == x as i128))]
pub fn narrow_i32_i64(x: i64) -> i32 { <i64 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i32_i64)]
fn k_narrow_i32_i64() { narrow_i32_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn from_i32_i128(x: i32) -> i128 { <i128 as ConvertFrom<i32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i32_i128)]
fn k_from_i32_i128() { from_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn to_i32_i128(x: i32) -> i128 { <i32 as ConvertTo<i128>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i32_i128)]
fn k_to_i32_i128() { to_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn force_i32_i128(x: i32) -> i128 { <i32 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i32_i128)]
fn k_force_i32_i128() { force_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn lhs_i32_i128(x: i32) -> i128 { <i32 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i32_i128)]
fn k_lhs_i32_i128() { lhs_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn rhs_i32_i128(x: i32) -> i128 { <i128 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i32_i128)]
fn k_rhs_i32_i128() { rhs_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn lhsw_i32_i128(x: i128) -> i128 { <i128 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i32_i128)]
fn k_lhsw_i32_i128() { lhsw_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn rhsw_i32_i128(x: i128) -> i128 { <i32 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i32_i128)]
fn k_rhsw_i32_i128() { rhsw_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| x < i32::MIN as i128 || x > i32::MAX as i128 || *r as i128 == x as i128))]
pub fn narrow_i32_i128(x: i128) -> i32 { <i128 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i32_i128)]
fn k_narrow_i32_i128() { narrow_i32_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn from_i32_f32(x: i32) -> f32 { <f32 as ConvertFrom<i32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i32_f32)]
fn k_from_i32_f32() { from_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn to_i32_f32(x: i32) -> f32 { <i32 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i32_f32)]
fn k_to_i32_f32() { to_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn force_i32_f32(x: i32) -> f32 { <i32 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i32_f32)]
fn k_force_i32_f32() { force_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn lhs_i32_f32(x: i32) -> f32 { <i32 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i32_f32)]
fn k_lhs_i32_f32() { lhs_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn rhs_i32_f32(x: i32) -> f32 { <f32 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i32_f32)]
fn k_rhs_i32_f32() { rhs_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhsw_i32_f32(x: f32) -> f32 { <f32 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i32_f32)]
fn k_lhsw_i32_f32() { lhsw_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhsw_i32_f32(x: f32) -> f32 { <i32 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i32_f32)]
fn k_rhsw_i32_f32() { rhsw_i32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| !is32(x, k as i128) || *r == k))]
pub fn narrow_i32_f32(x: f32, k: i32) -> i32 { <f32 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i32_f32)]
fn k_narrow_i32_f32() { narrow_i32_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn from_i32_f64(x: i32) -> f64 { <f64 as ConvertFrom<i32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i32_f64)]
fn k_from_i32_f64() { from_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn to_i32_f64(x: i32) -> f64 { <i32 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i32_f64)]
fn k_to_i32_f64() { to_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn force_i32_f64(x: i32) -> f64 { <i32 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i32_f64)]
fn k_force_i32_f64() { force_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn lhs_i32_f64(x: i32) -> f64 { <i32 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i32_f64)]
fn k_lhs_i32_f64() { lhs_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn rhs_i32_f64(x: i32) -> f64 { <f64 as ConvertWith<i32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i32_f64)]
fn k_rhs_i32_f64() { rhs_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_i32_f64(x: f64) -> f64 { <f64 as ConvertWith<i32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i32_f64)]
fn k_lhsw_i32_f64() { lhsw_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_i32_f64(x: f64) -> f64 { <i32 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i32_f64)]
fn k_rhsw_i32_f64() { rhsw_i32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i32| !is64(x, k as i128) || *r == k))]
pub fn narrow_i32_f64(x: f64, k: i32) -> i32 { <f64 as ConvertForce<i32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i32_f64)]
fn k_narrow_i32_f64() { narrow_i32_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn from_i64_i64(x: i64) -> i64 { <i64 as ConvertFrom<i64>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i64_i64)]
fn k_from_i64_i64() { from_i64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn to_i64_i64(x: i64) -> i64 { <i64 as ConvertTo<i64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i64_i64)]
fn k_to_i64_i64() { to_i64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn force_i64_i64(x: i64) -> i64 { <i64 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i64_i64)]
fn k_force_i64_i64() { force_i64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn lhs_i64_i64(x: i64) -> i64 { <i64 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i64_i64)]
fn k_lhs_i64_i64() { lhs_i64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == x as i128))]
pub fn rhs_i64_i64(x: i64) -> i64 { <i64 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i64_i64)]
fn k_rhs_i64_i64() { rhs_i64_i64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn from_i64_i128(x: i64) -> i128 { <i128 as ConvertFrom<i64>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i64_i128)]
fn k_from_i64_i128() { from_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn to_i64_i128(x: i64) -> i128 { <i64 as ConvertTo<i128>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i64_i128)]
fn k_to_i64_i128() { to_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn force_i64_i128(x: i64) -> i128 { <i64 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i64_i128)]
fn k_force_i64_i128() { force_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn lhs_i64_i128(x: i64) -> i128 { <i64 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i64_i128)]
fn k_lhs_i64_i128() { lhs_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn rhs_i64_i128(x: i64) -> i128 { <i128 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i64_i128)]
fn k_rhs_i64_i128() { rhs_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn lhsw_i64_i128(x: i128) -> i128 { <i128 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i64_i128)]
fn k_lhsw_i64_i128() { lhsw_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r == x))]
pub fn rhsw_i64_i128(x: i128) -> i128 { <i64 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i64_i128)]
fn k_rhsw_i64_i128() { rhsw_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| x < i64::MIN as i128 || x > i64::MAX as i128 || *r as i128 == x as i128))]
pub fn narrow_i64_i128(x: i128) -> i64 { <i128 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i64_i128)]
fn k_narrow_i64_i128() { narrow_i64_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn from_i64_f32(x: i64) -> f32 { <f32 as ConvertFrom<i64>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i64_f32)]
fn k_from_i64_f32() { from_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn to_i64_f32(x: i64) -> f32 { <i64 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i64_f32)]
fn k_to_i64_f32() { to_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn force_i64_f32(x: i64) -> f32 { <i64 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i64_f32)]
fn k_force_i64_f32() { force_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn lhs_i64_f32(x: i64) -> f32 { <i64 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i64_f32)]
fn k_lhs_i64_f32() { lhs_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn rhs_i64_f32(x: i64) -> f32 { <f32 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i64_f32)]
fn k_rhs_i64_f32() { rhs_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhsw_i64_f32(x: f32) -> f32 { <f32 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i64_f32)]
fn k_lhsw_i64_f32() { lhsw_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhsw_i64_f32(x: f32) -> f32 { <i64 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i64_f32)]
fn k_rhsw_i64_f32() { rhsw_i64_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| !is32(x, k as i128) || *r == k))]
pub fn narrow_i64_f32(x: f32, k: i64) -> i64 { <f32 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i64_f32)]
fn k_narrow_i64_f32() { narrow_i64_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn from_i64_f64(x: i64) -> f64 { <f64 as ConvertFrom<i64>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i64_f64)]
fn k_from_i64_f64() { from_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn to_i64_f64(x: i64) -> f64 { <i64 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i64_f64)]
fn k_to_i64_f64() { to_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn force_i64_f64(x: i64) -> f64 { <i64 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i64_f64)]
fn k_force_i64_f64() { force_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn lhs_i64_f64(x: i64) -> f64 { <i64 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i64_f64)]
fn k_lhs_i64_f64() { lhs_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn rhs_i64_f64(x: i64) -> f64 { <f64 as ConvertWith<i64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i64_f64)]
fn k_rhs_i64_f64() { rhs_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_i64_f64(x: f64) -> f64 { <f64 as ConvertWith<i64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i64_f64)]
fn k_lhsw_i64_f64() { lhsw_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_i64_f64(x: f64) -> f64 { <i64 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i64_f64)]
fn k_rhsw_i64_f64() { rhsw_i64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i64| !is64(x, k as i128) || *r == k))]
pub fn narrow_i64_f64(x: f64, k: i64) -> i64 { <f64 as ConvertForce<i64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i64_f64)]
fn k_narrow_i64_f64() { narrow_i64_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn from_i128_i128(x: i128) -> i128 { <i128 as ConvertFrom<i128>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i128_i128)]
fn k_from_i128_i128() { from_i128_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn to_i128_i128(x: i128) -> i128 { <i128 as ConvertTo<i128>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i128_i128)]
fn k_to_i128_i128() { to_i128_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn force_i128_i128(x: i128) -> i128 { <i128 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i128_i128)]
fn k_force_i128_i128() { force_i128_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn lhs_i128_i128(x: i128) -> i128 { <i128 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i128_i128)]
fn k_lhs_i128_i128() { lhs_i128_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| *r as i128 == x as i128))]
pub fn rhs_i128_i128(x: i128) -> i128 { <i128 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i128_i128)]
fn k_rhs_i128_i128() { rhs_i128_i128(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn from_i128_f32(x: i128) -> f32 { <f32 as ConvertFrom<i128>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i128_f32)]
fn k_from_i128_f32() { from_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn to_i128_f32(x: i128) -> f32 { <i128 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i128_f32)]
fn k_to_i128_f32() { to_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn force_i128_f32(x: i128) -> f32 { <i128 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i128_f32)]
fn k_force_i128_f32() { force_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn lhs_i128_f32(x: i128) -> f32 { <i128 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i128_f32)]
fn k_lhs_i128_f32() { lhs_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !fits(x as i128, 24) || is32(*r, x as i128)))]
pub fn rhs_i128_f32(x: i128) -> f32 { <f32 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i128_f32)]
fn k_rhs_i128_f32() { rhs_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhsw_i128_f32(x: f32) -> f32 { <f32 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i128_f32)]
fn k_lhsw_i128_f32() { lhsw_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhsw_i128_f32(x: f32) -> f32 { <i128 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i128_f32)]
fn k_rhsw_i128_f32() { rhsw_i128_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| !is32(x, k as i128) || *r == k))]
pub fn narrow_i128_f32(x: f32, k: i128) -> i128 { <f32 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i128_f32)]
fn k_narrow_i128_f32() { narrow_i128_f32(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn from_i128_f64(x: i128) -> f64 { <f64 as ConvertFrom<i128>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_i128_f64)]
fn k_from_i128_f64() { from_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn to_i128_f64(x: i128) -> f64 { <i128 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_i128_f64)]
fn k_to_i128_f64() { to_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn force_i128_f64(x: i128) -> f64 { <i128 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_i128_f64)]
fn k_force_i128_f64() { force_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn lhs_i128_f64(x: i128) -> f64 { <i128 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_i128_f64)]
fn k_lhs_i128_f64() { lhs_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| !fits(x as i128, 53) || is64(*r, x as i128)))]
pub fn rhs_i128_f64(x: i128) -> f64 { <f64 as ConvertWith<i128>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_i128_f64)]
fn k_rhs_i128_f64() { rhs_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_i128_f64(x: f64) -> f64 { <f64 as ConvertWith<i128>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_i128_f64)]
fn k_lhsw_i128_f64() { lhsw_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_i128_f64(x: f64) -> f64 { <i128 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_i128_f64)]
fn k_rhsw_i128_f64() { rhsw_i128_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &i128| !is64(x, k as i128) || *r == k))]
pub fn narrow_i128_f64(x: f64, k: i128) -> i128 { <f64 as ConvertForce<i128>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_i128_f64)]
fn k_narrow_i128_f64() { narrow_i128_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn from_f32_f32(x: f32) -> f32 { <f32 as ConvertFrom<f32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_f32_f32)]
fn k_from_f32_f32() { from_f32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn to_f32_f32(x: f32) -> f32 { <f32 as ConvertTo<f32>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_f32_f32)]
fn k_to_f32_f32() { to_f32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn force_f32_f32(x: f32) -> f32 { <f32 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_f32_f32)]
fn k_force_f32_f32() { force_f32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn lhs_f32_f32(x: f32) -> f32 { <f32 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_f32_f32)]
fn k_lhs_f32_f32() { lhs_f32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| eq32(*r, x)))]
pub fn rhs_f32_f32(x: f32) -> f32 { <f32 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_f32_f32)]
fn k_rhs_f32_f32() { rhs_f32_f32(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(x, *r)))]
pub fn from_f32_f64(x: f32) -> f64 { <f64 as ConvertFrom<f32>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_f32_f64)]
fn k_from_f32_f64() { from_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(x, *r)))]
pub fn to_f32_f64(x: f32) -> f64 { <f32 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_f32_f64)]
fn k_to_f32_f64() { to_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(x, *r)))]
pub fn force_f32_f64(x: f32) -> f64 { <f32 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_f32_f64)]
fn k_force_f32_f64() { force_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(x, *r)))]
pub fn lhs_f32_f64(x: f32) -> f64 { <f32 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_f32_f64)]
fn k_lhs_f32_f64() { lhs_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| wide(x, *r)))]
pub fn rhs_f32_f64(x: f32) -> f64 { <f64 as ConvertWith<f32>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_f32_f64)]
fn k_rhs_f32_f64() { rhs_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhsw_f32_f64(x: f64) -> f64 { <f64 as ConvertWith<f32>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhsw_f32_f64)]
fn k_lhsw_f32_f64() { lhsw_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhsw_f32_f64(x: f64) -> f64 { <f32 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhsw_f32_f64)]
fn k_rhsw_f32_f64() { rhsw_f32_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f32| !wide(k, x) || eq32(*r, k)))]
pub fn narrow_f32_f64(x: f64, k: f32) -> f32 { <f64 as ConvertForce<f32>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(narrow_f32_f64)]
fn k_narrow_f32_f64() { narrow_f32_f64(kani::any(), kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn from_f64_f64(x: f64) -> f64 { <f64 as ConvertFrom<f64>>::convert_from(x) }
#[cfg(kani)]
#[kani::proof_for_contract(from_f64_f64)]
fn k_from_f64_f64() { from_f64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn to_f64_f64(x: f64) -> f64 { <f64 as ConvertTo<f64>>::convert_to(x) }
#[cfg(kani)]
#[kani::proof_for_contract(to_f64_f64)]
fn k_to_f64_f64() { to_f64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn force_f64_f64(x: f64) -> f64 { <f64 as ConvertForce<f64>>::convert_force(x) }
#[cfg(kani)]
#[kani::proof_for_contract(force_f64_f64)]
fn k_force_f64_f64() { force_f64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn lhs_f64_f64(x: f64) -> f64 { <f64 as ConvertWith<f64>>::convert_lhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(lhs_f64_f64)]
fn k_lhs_f64_f64() { lhs_f64_f64(kani::any()); }
#[cfg_attr(kani, kani::ensures(|r: &f64| eq64(*r, x)))]
pub fn rhs_f64_f64(x: f64) -> f64 { <f64 as ConvertWith<f64>>::convert_rhs(x) }
#[cfg(kani)]
#[kani::proof_for_contract(rhs_f64_f64)]
fn k_rhs_f64_f64() { rhs_f64_f64(kani::any()); }
pub const CONTRACTS: usize = 259;
