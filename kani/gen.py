#!/usr/bin/env python3
"""writes src/lib.rs: one function per operation and type, its contract, and the
harness that has kani check the contract for every input"""
INTS = ["i8", "i16", "i32", "i64", "i128"]
FLTS = ["f32", "f64"]
ALL = INTS + FLTS
out = []
w = out.append
w('''//! Contracts of the coefficient types (C20), written by gen.py.  Every function
//! is the library's own, called with every value of its type; there are no loops.
#![allow(unused_imports, non_snake_case, dead_code)]
use annealers::variable::{ConvertForce, ConvertFrom, ConvertTo, ConvertWith, Real};

// what a float is, read from its bits: nothing here goes through a conversion
pub fn nan32(x: f32) -> bool { (x.to_bits() & 0x7fff_ffff) > 0x7f80_0000 }
pub fn nan64(x: f64) -> bool { (x.to_bits() & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 }
pub fn fin32(x: f32) -> bool { (x.to_bits() & 0x7f80_0000) != 0x7f80_0000 }
pub fn fin64(x: f64) -> bool { (x.to_bits() & 0x7ff0_0000_0000_0000) != 0x7ff0_0000_0000_0000 }
// m * 2^e with a sign is k
fn scaled(neg: bool, m: u128, e: i32, k: i128) -> bool {
	let a = k.unsigned_abs();
	if k != 0 && neg != (k < 0) { return false; }
	if m == 0 { return a == 0; }
	if e >= 0 { e < 128 && (m << e) >> e == m && m << e == a } else { e > -128 && (a << -e) >> -e == a && a << -e == m }
}
pub fn is32(x: f32, k: i128) -> bool {
	let b = x.to_bits();
	let (e, f) = ((b >> 23) & 0xff, b & 0x7f_ffff);
	if e == 0 { return f == 0 && k == 0; }
	e != 0xff && scaled(b >> 31 != 0, (f | 0x80_0000) as u128, e as i32 - 150, k)
}
pub fn is64(x: f64, k: i128) -> bool {
	let b = x.to_bits();
	let (e, f) = ((b >> 52) & 0x7ff, b & 0xf_ffff_ffff_ffff);
	if e == 0 { return f == 0 && k == 0; }
	e != 0x7ff && scaled(b >> 63 != 0, (f | 0x10_0000_0000_0000) as u128, e as i32 - 1075, k)
}
// k has at most n significant bits
pub fn fits(k: i128, n: u32) -> bool { let a = k.unsigned_abs(); a == 0 || 128 - a.leading_zeros() - a.trailing_zeros() <= n }
// two floats of the same value
pub fn eq32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || nan32(a) && nan32(b) || a.to_bits() << 1 == 0 && b.to_bits() << 1 == 0 }
pub fn eq64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || nan64(a) && nan64(b) || a.to_bits() << 1 == 0 && b.to_bits() << 1 == 0 }
// the same value in the other width, read from the bits
pub fn wide(a: f32, b: f64) -> bool {
	let (x, y) = (a.to_bits(), b.to_bits());
	if nan32(a) { return nan64(b); }
	if x >> 31 != (y >> 63) as u32 { return false; }
	let (e, f) = ((x >> 23) & 0xff, (x & 0x7f_ffff) as u64);
	let (d, g) = ((y >> 52) & 0x7ff, y & 0xf_ffff_ffff_ffff);
	if e == 0xff { return d == 0x7ff && g == 0; }
	if e != 0 { return d == e as u64 + 896 && g == f << 29; }
	if f == 0 { return d == 0 && g == 0; }
	let z = f.leading_zeros() - 41; // 23 bits: the leading one moves up by z + 1
	d == 896 - z as u64 && g == (f << (z + 1) & 0x7f_ffff) << 29
}
// order of floats that are not NaN, from the bits
fn rank64(x: f64) -> i128 { let b = x.to_bits(); let m = (b & 0x7fff_ffff_ffff_ffff) as i128; if b >> 63 != 0 { -m } else { m } }
fn rank32(x: f32) -> i128 { let b = x.to_bits(); let m = (b & 0x7fff_ffff) as i128; if b >> 31 != 0 { -m } else { m } }
''')
N = []
def fn(name, args, ret, body, ensures, requires=None, vals=None):
    N.append(name)
    r = "#[cfg_attr(kani, kani::requires(%s))]\n" % requires if requires else ""
    w("%s#[cfg_attr(kani, kani::ensures(|r: &%s| %s))]\npub fn %s(%s) -> %s { %s }" % (r, ret, ensures, name, ", ".join("%s: %s" % a for a in args), ret, body))
    w("#[cfg(kani)]\n#[kani::proof_for_contract(%s)]\nfn k_%s() { %s(%s); }" % (name, name, name, ", ".join(
        "kani::any()" for a in args)))
def bits(t): return {"f32": 24, "f64": 53}[t]
def isf(t): return t.replace("f", "is")
for t in ALL:
    b = t[1:]
    fl = t in FLTS
    R = "<%s as Real>" % t
    if fl:
        fn("abs_" + t, [("a", t)], t, R + "::abs(a)", "(nan%s(a) && nan%s(*r)) || !nan%s(a) && rank%s(*r) == rank%s(a).abs()" % (b, b, b, b, b))
        for op, c in (("min", "<="), ("max", ">=")):
            fn("%s_%s" % (op, t), [("a", t), ("b", t)], t, "%s::%s(a, b)" % (R, op),
               "if nan{0}(a) {{ eq{0}(*r, b) }} else if nan{0}(b) {{ eq{0}(*r, a) }} else {{ rank{0}(*r) {1} rank{0}(a) && rank{0}(*r) {1} rank{0}(b) && (rank{0}(*r) == rank{0}(a) || rank{0}(*r) == rank{0}(b)) && !nan{0}(*r) }}".format(b, c))
        fn("finite_" + t, [("a", t)], "bool", R + "::is_finite(a)", "*r == fin%s(a)" % b)
        fn("as_f64_" + t, [("a", t)], "f64", R + "::as_f64(&a)", "eq64(*r, a)" if t == "f64" else "wide(a, *r)")
        fn("fromi32_" + t, [("i", "i32")], t, R + "::from_i32(i)", "!fits(i as i128, %d) || is%s(*r, i as i128)" % (bits(t), b))
        fn("limits_" + t, [], "(%s, %s, %s, %s)" % (t, t, t, t), "(<%s as Real>::MAX, <%s as Real>::MIN, %s::zero(), %s::one())" % (t, t, R, R),
           "r.0.to_bits() == %s && r.1.to_bits() == %s && is%s(r.2, 0) && is%s(r.3, 1)" % (("0x7f7f_ffff", "0xff7f_ffff") if t == "f32" else ("0x7fef_ffff_ffff_ffff", "0xffef_ffff_ffff_ffff")) .__class__(
               (("0x7f7f_ffff", "0xff7f_ffff") if t == "f32" else ("0x7fef_ffff_ffff_ffff", "0xffef_ffff_ffff_ffff")) + (b, b)))
    else:
        fn("abs_" + t, [("a", t)], t, R + "::abs(a)", "*r as i128 == if a < 0 { -(a as i128) } else { a as i128 }", "a != %s::MIN" % t)
        for op, c in (("min", "<="), ("max", ">=")):
            fn("%s_%s" % (op, t), [("a", t), ("b", t)], t, "%s::%s(a, b)" % (R, op), "*r {0} a && *r {0} b && (*r == a || *r == b)".format(c))
        fn("finite_" + t, [("a", t)], "bool", R + "::is_finite(a)", "*r")
        fn("as_f64_" + t, [("a", t)], "f64", R + "::as_f64(&a)", "!fits(a as i128, 53) || is64(*r, a as i128)")
        fn("fromi32_" + t, [("i", "i32")], t, R + "::from_i32(i)", "(i as i128) < %s::MIN as i128 || (i as i128) > %s::MAX as i128 || *r as i128 == i as i128" % (t, t))
        fn("limits_" + t, [], "(%s, %s, %s, %s)" % (t, t, t, t), "(<%s as Real>::MAX, <%s as Real>::MIN, %s::zero(), %s::one())" % (t, t, R, R),
           "r.0 == %s::MAX && r.1 == %s::MIN && r.2 == 0 && r.3 == 1" % (t, t))
def post(a, b):
    """the value of x: a is kept in *r: b"""
    if a in INTS and b in INTS:
        return "*r as i128 == x as i128"
    if a in INTS:
        return "!fits(x as i128, %d) || is%s(*r, x as i128)" % (bits(b), b[1:])
    if a == b:
        return "eq%s(*r, x)" % a[1:]
    return "wide(x, *r)"
for t in FLTS:
    fn("fromf64_" + t, [("f", "f64")] + ([("k", "f32")] if t == "f32" else []), t, "<%s as Real>::from_f64(f)" % t,
       "!wide(k, f) || eq32(*r, k)" if t == "f32" else "eq64(*r, f)")
for t in INTS:
    fn("fromf64_" + t, [("f", "f64"), ("k", t)], t, "<%s as Real>::from_f64(f)" % t, "!is64(f, k as i128) || *r == k")
for i, a in enumerate(ALL):
    for b in ALL[i:]:
        P = post(a, b)
        nm = "%s_%s" % (a, b)
        fn("from_" + nm, [("x", a)], b, "<%s as ConvertFrom<%s>>::convert_from(x)" % (b, a), P)
        fn("to_" + nm, [("x", a)], b, "<%s as ConvertTo<%s>>::convert_to(x)" % (a, b), P)
        fn("force_" + nm, [("x", a)], b, "<%s as ConvertForce<%s>>::convert_force(x)" % (a, b), P)
        fn("lhs_" + nm, [("x", a)], b, "<%s as ConvertWith<%s>>::convert_lhs(x)" % (a, b), P)
        fn("rhs_" + nm, [("x", a)], b, "<%s as ConvertWith<%s>>::convert_rhs(x)" % (b, a), P)
        if a != b:
            Q = "eq%s(*r, x)" % b[1:] if b in FLTS else "*r == x"
            fn("lhsw_" + nm, [("x", b)], b, "<%s as ConvertWith<%s>>::convert_lhs(x)" % (b, a), Q)
            fn("rhsw_" + nm, [("x", b)], b, "<%s as ConvertWith<%s>>::convert_rhs(x)" % (a, b), Q)
            # back to the narrower type, where the value fits
            if b in INTS:
                S = "x < %s::MIN as %s || x > %s::MAX as %s || *r as i128 == x as i128" % (a, b, a, b)
            elif a in INTS:
                S = None
            else:
                S = "{ let y = *r; !wide(y, x) || eq32(y, y) }"
                S = None
            if S:
                fn("narrow_" + nm, [("x", b)], a, "<%s as ConvertForce<%s>>::convert_force(x)" % (b, a), S)
            elif a in INTS:
                # the float that k is, if it is one: the conversion gives k back
                fn("narrow_" + nm, [("x", b), ("k", a)], a, "<%s as ConvertForce<%s>>::convert_force(x)" % (b, a), "!is%s(x, k as i128) || *r == k" % b[1:])
            else:
                fn("narrow_" + nm, [("x", b), ("k", a)], a, "<%s as ConvertForce<%s>>::convert_force(x)" % (b, a), "!wide(k, x) || eq32(*r, k)")
w("pub const CONTRACTS: usize = %d;" % len(N))
open(__file__.rsplit("/", 1)[0] + "/src/lib.rs" if "/" in __file__ else "src/lib.rs", "w").write("\n".join(out) + "\n")
print(len(N))
