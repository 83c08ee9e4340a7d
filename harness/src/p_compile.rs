//! C01-C10: expressions, compilation, feeding, operators, constraints.
use crate::cap::*;
use crate::ex::X::*;
use crate::ex::*;
use crate::fw::*;
use annealers::variable::Real;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn none(_: u8) -> f64 {
	panic!("harness: no placeholder expected")
}
fn one(_: u8) -> f64 {
	1.0
}

fn check_expr<R: Nm>(c: &mut Case, x: &X) -> Result<(), String> {
	let vs = x.varset();
	if vs.is_empty() {
		c.trivial();
	}
	let q = capture::<R, ()>(x.ex(), &HashMap::new(), None)?;
	let n = check_min(&q, &vs, 1e-9, &|a| x.val(a, &none, &one))?;
	c.ev(n);
	Ok(())
}

fn rand_poly(r: &mut Prng, nv: usize, terms: usize, deg: usize, coef: i64) -> Vec<(X, u32)> {
	(0..terms)
		.map(|_| {
			let mut s = 0u32;
			let d = r.us(deg + 1);
			for _ in 0..d {
				s |= 1 << r.us(nv);
			}
			(Num(r.range(-coef, coef)), s)
		})
		.collect()
}

pub fn c01(t: &mut Ctx) {
	// all pairs of monomials over four variables with signs
	let subsets: Vec<u32> = (0u32..16).filter(|s| s.count_ones() >= 2).collect();
	let cs = [-3i64, -1, 1, 2];
	let n = (subsets.len() * subsets.len() * cs.len() * cs.len()) as u64;
	t.family("pairs of monomials (f64)", n, n, |c| {
		let mut k = c.idx as usize;
		let a = subsets[k % subsets.len()];
		k /= subsets.len();
		let b = subsets[k % subsets.len()];
		k /= subsets.len();
		let (p, q) = (cs[k % cs.len()], cs[k / cs.len()]);
		let x = poly(&[(Num(p), a), (Num(q), b), (Num(5), 1), (Num(-2), 2)]);
		c.desc(x.to_string());
		check_expr::<f64>(c, &x)
	});
	fn rp<R: Nm>(c: &mut Case) -> Result<(), String> {
		let nv = 3 + c.rng.us(4);
		let terms = 1 + c.rng.us(7);
		let deg = 3 + c.rng.us(if R::NAME == "i8" { 1 } else { 3 });
		let terms = if R::NAME == "i8" { 2 } else { terms };
		let x = poly(&rand_poly(&mut c.rng, nv, terms, deg, if R::NAME == "i8" { 2 } else { 4 }));
		c.desc(format!("{} over {}", x, R::NAME));
		check_expr::<R>(c, &x)
	}
	t.family("random polynomials (f64)", 12000, 240000, rp::<f64>);
	t.family("random polynomials (i64)", 8000, 240000, rp::<i64>);
	t.family("fractional polynomials (f64)", 4000, 80000, |c| frac(c, false, rp::<f64>));
	t.family("random polynomials (i128)", 1600, 20000, rp::<i128>);
	fn tr<R: Nm>(c: &mut Case) -> Result<(), String> {
		let o = Opt { nv: 3 + c.rng.us(3), deg: 3 + c.rng.us(3), depth: 3 + c.rng.us(3), ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(format!("{} over {}", x, R::NAME));
		check_expr::<R>(c, &x)
	}
	t.family("random expressions (f64)", 16000, 400000, tr::<f64>);
	t.family("random expressions (i64)", 8000, 240000, tr::<i64>);
	t.family("fractional expressions (f64)", 4000, 80000, |c| frac(c, false, tr::<f64>));
	fn sm<R: Nm>(c: &mut Case) -> Result<(), String> {
		let o = Opt { nv: 3, deg: 3, depth: 3, coef: 2, norm: 60.0, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(format!("{} over {}", x, R::NAME));
		check_expr::<R>(c, &x)
	}
	t.family("random expressions (i32)", 2400, 80000, sm::<i32>);
	t.family("random expressions (f32)", 2400, 80000, sm::<f32>);
	t.family("powers of sums (i64)", 480, 2400, |c| {
		let mut x = Num(c.rng.range(-2, 2));
		for v in 0..2 + c.rng.us(3) {
			let k = c.rng.range(-2, 2);
			x = add(x, mul(Num(k), if c.rng.below(3) == 0 { Spin(v) } else { Bin(v) }));
		}
		let e = 2 + c.rng.us(3);
		let mut y = x.clone();
		for _ in 1..e {
			y = mul(y, x.clone());
		}
		c.desc(y.to_string());
		check_expr::<i64>(c, &y)
	});
	t.family("dense polynomials of degree four (i64)", 640, 6000, |c| {
		let nv = 4 + c.rng.us(2);
		let mut ms = Vec::new();
		for s in 0u32..1 << nv {
			if s.count_ones() <= 4 && c.rng.below(4) > 0 {
				ms.push((Num(c.rng.range(-3, 3)), s));
			}
		}
		let x = poly(&ms);
		c.desc(x.to_string());
		check_expr::<i64>(c, &x)
	});
}

pub fn c02(t: &mut Ctx) {
	fn vars_ok(c: &mut Case, x: &X) -> Result<(), String> {
		let q = capture::<i64, ()>(x.ex(), &HashMap::new(), None)?;
		let have: Vec<usize> = q.vars.iter().map(|v| v.0).collect();
		let want = x.varset();
		c.ev(1);
		if have != want {
			return Err(format!("the expression has the variables {:?}, the solution has {:?}", want, have));
		}
		// auxiliaries mistaken for variables or for each other change the minimum
		let n = check_min(&q, &want, 1e-9, &|a| x.val(a, &none, &one))?;
		c.ev(n);
		Ok(())
	}
	let fixed: Vec<X> = vec![
		Num(0),
		Num(7),
		Bin(0),
		Spin(3),
		mul(Num(0), Bin(2)),
		mul(Num(0), mul(Bin(2), Bin(1))),
		mul(Num(0), mono(Num(1), 0b111)),
		add(Bin(0), mul(Num(-1), Bin(0))),
		add(mono(Num(1), 0b1111), mono(Num(-1), 0b1111)),
		mul(Bin(0), Bin(0)),
		mul(Spin(0), Spin(0)),
		mul(mul(Spin(0), Spin(0)), mul(Spin(1), Spin(1))),
		mono(Num(1), 0b11111),
		mul(mono(Num(1), 0b111), mono(Num(1), 0b110)),
		add(mono(Num(3), 0b111), add(mono(Num(-3), 0b1110), mono(Num(2), 0b11100))),
	];
	t.family("degenerate expressions", fixed.len() as u64, fixed.len() as u64, |c| {
		let x = &fixed[c.idx as usize];
		c.desc(x.to_string());
		vars_ok(c, x)
	});
	t.family("random polynomials", 12000, 240000, |c| {
		let (nv, terms, deg) = (3 + c.rng.us(4), 1 + c.rng.us(7), 2 + c.rng.us(5));
		let x = poly(&rand_poly(&mut c.rng, nv, terms, deg, 2));
		c.desc(x.to_string());
		vars_ok(c, &x)
	});
	t.family("random expressions", 16000, 320000, |c| {
		let o = Opt { nv: 2 + c.rng.us(5), deg: 5, depth: 3 + c.rng.us(3), coef: 2, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		vars_ok(c, &x)
	});
	t.family("long products", 240, 1200, |c| {
		let k = 3 + c.rng.us(8);
		let mut ms = vec![(Num(c.rng.range(-3, 3)), (1u32 << k) - 1)];
		for _ in 0..c.rng.us(3) {
			ms.push((Num(c.rng.range(-3, 3)), (c.rng.u64() as u32) & ((1 << k) - 1)));
		}
		let x = poly(&ms);
		c.desc(x.to_string());
		vars_ok(c, &x)
	});
	t.family("labels are never auxiliaries (constraints and penalties)", 3200, 80000, |c| {
		let o = Opt { nv: 4, deg: 4, depth: 4, con: true, pen: true, nl: 1, coef: 2, norm: 2e3, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		let q = capture::<f64, u8>(x.ex(), &HashMap::new(), Some(1.0))?;
		let have: Vec<usize> = q.vars.iter().map(|v| v.0).collect();
		if have != x.varset() {
			return Err(format!("the expression has the variables {:?}, the solution has {:?}", x.varset(), have));
		}
		Ok(())
	});
}

pub fn c03(t: &mut Ctx) {
	let coefs = [-7i64, -3, -2, -1, 1, 2, 3, 10];
	let maxd = if t.thorough { 16 } else { 12 };
	let n = ((maxd - 2) * coefs.len()) as u64;
	fn go<R: Nm>(c: &mut Case, coefs: &[i64]) -> Result<(), String> {
		let d = 3 + c.idx as usize / coefs.len();
		let k = coefs[c.idx as usize % coefs.len()];
		let x = mono(Num(k), (1u32 << d) - 1);
		c.desc(format!("{} * product of {} variables over {}", k, d, R::NAME));
		let q = capture::<R, ()>(x.ex(), &HashMap::new(), None)?;
		let vs = x.varset();
		let n = check_min(&q, &vs, 1e-9, &|a| x.val(a, &none, &one))?;
		c.ev(n);
		if q.vars.len() != d {
			return Err(format!("{} of {} variables are left", q.vars.len(), d));
		}
		let want = if k > 0 { (d - 1) / 2 } else { 1 };
		if q.n - d != want {
			return Err(format!("{} auxiliaries instead of {}", q.n - d, want));
		}
		Ok(())
	}
	t.family("single products (f64)", n, n, |c| go::<f64>(c, &coefs));
	t.family("single products (i64)", n, n, |c| go::<i64>(c, &coefs));
	let small = 6 * coefs.len() as u64;
	t.family("single products (i16)", small, small, |c| go::<i16>(c, &coefs));
	t.family("single products (f32)", small, small, |c| go::<f32>(c, &coefs));
	// numbers, symbolic coefficients and variables in any order and nesting, variables more than once
	fn nest<R: Nm>(c: &mut Case) -> Result<(), String> {
		let d = 3 + c.rng.us(5);
		let mut parts: Vec<X> = (0..d).map(|v| Bin(v * 3 + 1)).collect();
		for _ in 0..c.rng.us(3) {
			let v = c.rng.us(d);
			parts.push(Bin(v * 3 + 1));
		}
		let mut neg = false;
		for _ in 0..c.rng.us(4) {
			let k = [-2i64, -1, 1, 2, 3][c.rng.us(5)];
			neg ^= k < 0;
			parts.push(Num(k));
		}
		let np = c.rng.us(3);
		for p in 0..np {
			parts.push(Ph(p as u8));
		}
		while parts.len() > 1 {
			let a = parts.swap_remove(c.rng.us(parts.len()));
			let b = parts.swap_remove(c.rng.us(parts.len()));
			parts.push(mul(a, b));
		}
		let x = parts.pop().unwrap();
		let vals: Vec<i64> = (0..np).map(|_| c.rng.range(1, 3)).collect();
		c.desc(format!("{} with placeholders {:?} over {}", x, vals, R::NAME));
		let dict: HashMap<u8, R> = vals.iter().enumerate().map(|(i, v)| (i as u8, R::n(*v))).collect();
		let q = capture::<R, ()>(x.ex(), &dict, None)?;
		let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &|p| num(vals[p as usize]), &one))?;
		c.ev(n);
		let want = if neg { 1 } else { (d - 1) / 2 };
		if q.n - q.vars.len() != want {
			return Err(format!("{} auxiliaries instead of {}", q.n - q.vars.len(), want));
		}
		Ok(())
	}
	t.family("nested products with symbolic coefficients (i64)", 2400, 40000, nest::<i64>);
	t.family("nested products with symbolic coefficients (f64)", 1200, 20000, nest::<f64>);
	t.family("fractional products (f64)", 1600, 20000, |c| frac(c, false, nest::<f64>));
}

fn rand_coef(r: &mut Prng, np: u8, depth: usize, coef: i64) -> X {
	if depth == 0 || r.below(5) == 0 {
		return if r.bool() { Ph(r.below(np as u64) as u8) } else { Num(r.range(-coef, coef)) };
	}
	let a = rand_coef(r, np, depth - 1, coef);
	let b = rand_coef(r, np, depth - 1, coef);
	if r.bool() {
		add(a, b)
	} else {
		mul(a, b)
	}
}

fn fed<R: Nm>(c: &mut Case, x: &X, vals: &[i64]) -> Result<(), String> {
	let dict: HashMap<u8, R> = vals.iter().enumerate().map(|(i, v)| (i as u8, R::n(*v))).collect();
	let q = capture::<R, ()>(x.ex(), &dict, None)?;
	let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &|p| num(vals[p as usize]), &one))?;
	c.ev(n);
	Ok(())
}

pub fn c04(t: &mut Ctx) {
	fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
		let np = 1 + c.rng.below(3) as u8;
		let o = Opt { nv: 3, np, deg: 2, depth: 3 + c.rng.us(4), phmag: 5.0, norm: if R::NAME == "i32" || R::NAME == "f32" { 1e5 } else { 1e7 }, ..BASE };
		let x = tree(&mut c.rng, &o);
		let vals: Vec<i64> = (0..np).map(|_| c.rng.range(-5, 5)).collect();
		c.desc(format!("{} with placeholders {:?} over {}", x, vals, R::NAME));
		fed::<R>(c, &x, &vals)
	}
	t.family("random expressions (i64)", 24000, 600000, go::<i64>);
	t.family("fractional expressions (f64)", 8000, 160000, |c| frac(c, false, go::<f64>));
	t.family("random expressions (f64)", 16000, 400000, go::<f64>);
	t.family("random expressions (i32)", 4000, 120000, go::<i32>);
	t.family("random expressions (f32)", 4000, 120000, go::<f32>);
	fn co<R: Nm>(c: &mut Case) -> Result<(), String> {
		let mut x = loop {
			let d = 2 + c.rng.us(4);
			let x = rand_coef(&mut c.rng, 3, d, 3);
			if x.norm(3.0) < 1e6 {
				break x;
			}
		};
		let k = c.rng.us(3);
		for v in 0..k {
			x = mul(x, Bin(v));
		}
		if c.rng.bool() {
			x = add(x, rand_coef(&mut c.rng, 3, 2, 3));
		}
		if c.rng.bool() {
			x = add(mul(rand_coef(&mut c.rng, 3, 2, 3), Bin(0)), x);
		}
		let vals: Vec<i64> = (0..3).map(|_| c.rng.range(-3, 3)).collect();
		c.desc(format!("{} with placeholders {:?}", x, vals));
		fed::<R>(c, &x, &vals)
	}
	t.family("nested coefficients (i64)", 32000, 800000, co::<i64>);
	t.family("fractional nested coefficients (f64)", 8000, 160000, |c| frac(c, false, co::<f64>));
	t.family("nested coefficients (f64)", 16000, 400000, co::<f64>);
}

pub fn c05(t: &mut Ctx) {
	fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
		let nv = 3 + c.rng.us(3);
		let terms = 1 + c.rng.us(5);
		let mut ms = Vec::new();
		for _ in 0..terms {
			let d = 1 + c.rng.us(5);
			let mut s = 0u32;
			for _ in 0..d {
				s |= 1 << c.rng.us(nv);
			}
			let cd = c.rng.us(4);
			ms.push((rand_coef(&mut c.rng, 2, cd, 3), s));
		}
		let x = poly(&ms);
		if x.norm(4.0) > 1e5 {
			c.trivial();
			return Ok(());
		}
		let vals: Vec<i64> = (0..2).map(|_| c.rng.range(0, 4)).collect();
		c.desc(format!("{} with placeholders {:?} over {}", x, vals, R::NAME));
		fed::<R>(c, &x, &vals)
	}
	t.family("polynomials with symbolic coefficients (f64)", 24000, 600000, go::<f64>);
	t.family("polynomials with symbolic coefficients (i64)", 16000, 400000, go::<i64>);
	t.family("fractional symbolic coefficients (f64)", 8000, 160000, |c| frac(c, false, go::<f64>));
	t.family("one long product, one coefficient (f64)", 24000, 240000, |c| {
		let d = 3 + c.rng.us(4);
		let cd = 1 + c.rng.us(4);
		let x = mono(rand_coef(&mut c.rng, 2, cd, 3), (1 << d) - 1);
		if x.norm(4.0) > 1e6 {
			c.trivial();
			return Ok(());
		}
		let vals: Vec<i64> = (0..2).map(|_| c.rng.range(0, 4)).collect();
		c.desc(format!("{} with placeholders {:?}", x, vals));
		fed::<f64>(c, &x, &vals)
	});
	t.family("expressions with placeholders (f64)", 12000, 320000, |c| {
		let o = Opt { nv: 4, np: 2, deg: 4, depth: 5, phmag: 4.0, norm: 1e5, coef: 3, ..BASE };
		let x = tree(&mut c.rng, &o);
		let vals: Vec<i64> = (0..2).map(|_| c.rng.range(0, 4)).collect();
		c.desc(format!("{} with placeholders {:?}", x, vals));
		fed::<f64>(c, &x, &vals)
	});
	t.family("weights of constraints as symbols (f64)", 6400, 160000, |c| {
		let o = Opt { nv: 4, deg: 4, depth: 4, con: true, nl: 2, coef: 3, norm: 1e4, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		let mut ls = BTreeSet::new();
		x.labels(&mut ls);
		let s = 4.0;
		let w = s / ls.len().max(1) as f64;
		let q = capture::<f64, u8>(x.ex(), &HashMap::new(), Some(s))?;
		let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &none, &|_| w))?;
		c.ev(n);
		Ok(())
	});
}

fn expr_eq<R: Nm>(a: &Ex<R, u8>, b: &Ex<R, u8>) -> bool {
	a == b
}

pub fn c06(t: &mut Ctx) {
	fn sub<R: Nm>(c: &mut Case) -> Result<(), String> {
		let o = Opt { nv: 3, np: 3, deg: 3, depth: 5, con: true, pen: true, nl: 2, ..BASE };
		let x = tree(&mut c.rng, &o);
		let d: HashMap<u8, i64> = (0..4u8).filter_map(|p| if c.rng.below(3) > 0 { Some((p, c.rng.range(-9, 9))) } else { None }).collect();
		let bt: BTreeMap<_, _> = d.iter().collect();
		c.desc(format!("feed {:?} into {}", bt, x));
		let dict: HashMap<u8, R> = d.iter().map(|(k, v)| (*k, R::n(*v))).collect();
		let got: Ex<R, u8> = x.ex::<R, u8>().feed_dict(&dict);
		let want: Ex<R, u8> = x.subst(&|p| d.get(&p).cloned()).ex();
		if !expr_eq(&got, &want) {
			return Err(format!("got {:?}, expected {:?}", got, want));
		}
		Ok(())
	}
	t.family("substitution in expressions (i64)", 48000, 1200000, sub::<i64>);
	t.family("fractional substitution (f64)", 8000, 160000, |c| frac(c, false, sub::<f64>));
	t.family("substitution in expressions (f64)", 16000, 400000, sub::<f64>);
	t.family("feeding a compiled model", 20000, 480000, |c| {
		let o = Opt { nv: 3, np: 2, deg: 2, depth: 4, con: true, pen: true, nl: 1, norm: 1e5, phmag: 5.0, ..BASE };
		let x = tree(&mut c.rng, &o);
		let vals: Vec<i64> = (0..2).map(|_| c.rng.range(-5, 5)).collect();
		c.desc(format!("{} with placeholders {:?}", x, vals));
		let dict: HashMap<u8, f64> = vals.iter().enumerate().map(|(i, v)| (i as u8, num(*v))).collect();
		let a = capture::<f64, u8>(x.ex(), &dict, Some(3.0))?;
		let b = capture::<f64, u8>(x.subst(&|p| Some(vals[p as usize])).ex(), &HashMap::new(), Some(3.0))?;
		if a.vars.iter().map(|v| v.0).collect::<Vec<_>>() != b.vars.iter().map(|v| v.0).collect::<Vec<_>>() {
			return Err("the fed model has other variables than the model of the substituted expression".into());
		}
		let vs = x.varset();
		let n = check_min(&a, &vs, 1e-9, &|s| b.min_at(s).unwrap())?;
		c.ev(n);
		// degree two: no auxiliaries, the weights themselves agree
		if a.n != a.vars.len() || b.n != b.vars.len() {
			return Err("auxiliaries in a quadratic model".into());
		}
		Ok(())
	});
	t.family("left-over placeholders are rejected", 8000, 160000, |c| {
		let o = Opt { nv: 3, np: 2, deg: 2, depth: 3, con: true, pen: true, nl: 2, ..BASE };
		let base = tree(&mut c.rng, &o);
		// placeholder 9 certainly occurs with a non-zero coefficient
		let k = c.rng.range(1, 3);
		let extra = match c.rng.below(4) {
			0 => mul(Ph(9), Num(k)),
			1 => mul(Ph(9), Bin(0)),
			2 => Con(0, bx(add(Bin(1), mul(Num(k), Ph(9))))),
			_ => Pen(bx(Bin(0)), bx(mul(Ph(9), Bin(1)))),
		};
		let x = add(base, extra);
		c.desc(format!("{} without placeholder 9", x));
		let e: Ex<f64, u8> = x.ex();
		let dict: HashMap<u8, f64> = vec![(0, 1.0), (1, 2.0)].into_iter().collect();
		if !panics(move || {
			let _ = e.compile().feed_dict(dict);
		}) {
			return Err("a model with a placeholder left over was accepted".into());
		}
		Ok(())
	});
	t.family("unused keys are ignored, constraints are fed", 12000, 240000, |c| {
		let o = Opt { nv: 3, np: 2, deg: 2, depth: 3, norm: 1e4, phmag: 5.0, ..BASE };
		let e = tree(&mut c.rng, &o);
		let x = add(Con(0, bx(e.clone())), Bin(0));
		let vals: Vec<i64> = (0..2).map(|_| c.rng.range(-3, 3)).collect();
		c.desc(format!("{} with placeholders {:?}", x, vals));
		let mut dict: HashMap<u8, f64> = vals.iter().enumerate().map(|(i, v)| (i as u8, *v as f64)).collect();
		dict.insert(77, 5.0);
		unsat_check::<f64>(c, &x, &dict, &vals)
	});
}

/// Compares the reported labels with the declared constraints at every assignment.
fn unsat_check<R: Nm>(c: &mut Case, x: &X, dict: &HashMap<u8, R>, vals: &[i64]) -> Result<(), String> {
	let mut cons = Vec::new();
	x.cons(&mut cons);
	let vs = x.varset();
	let states: Vec<u64> = if vs.len() <= 4 { (0..1u64 << vs.len()).collect() } else { (0..12).map(|_| c.rng.u64()).collect() };
	let extra = c.rng.u64();
	let r: Result<u64, String> = with_model(x.ex::<R, u8>(), dict, None, |run, _, _| {
		// fresh compilation: the index map may differ, find it again
		let o0 = run(&|n| vec![false; n])?;
		let mut map: HashMap<usize, usize> = o0.keys.iter().map(|k| (*k, 0)).collect();
		for bit in 0..8 {
			let p = run(&|n| (0..n).map(|i| i >> bit & 1 == 1).collect())?;
			for (k, v) in p.vals {
				if v {
					*map.entry(k).or_insert(0) |= 1 << bit;
				}
			}
		}
		let mut cnt = 0;
		for bits in &states {
			let a = |l: usize| vs.iter().position(|x| *x == l).map(|p| bits >> p & 1 == 1).unwrap_or(false);
			let o = run(&|n| {
				let mut s: Vec<bool> = (0..n).map(|i| extra >> (i % 64) & 1 == 1).collect();
				for (l, i) in &map {
					s[*i] = a(*l);
				}
				s
			})?;
			let mut got = o.unsat.clone();
			got.sort();
			let mut want: Vec<u8> = cons
				.iter()
				.filter(|(_, e)| e.raw(&a, &|p| num(vals[p as usize])).abs() >= 1e-4)
				.map(|c| c.0)
				.collect();
			want.sort();
			cnt += 1;
			if got != want {
				let asg: Vec<String> = vs.iter().map(|v| format!("x{}={}", v, a(*v) as u8)).collect();
				return Err(format!("at {} the labels {:?} were reported, violated are {:?}", asg.join(" "), got, want));
			}
		}
		Ok(cnt)
	});
	c.ev(r?);
	Ok(())
}

pub fn c09(t: &mut Ctx) {
	fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
		let deg = if R::NAME == "i32" || R::NAME == "f32" { 2 } else { 4 };
		let o = Opt { nv: 3, np: 1, deg, depth: 3, coef: 2, norm: 300.0, phmag: 3.0, ..BASE };
		let nc = 1 + c.rng.us(3);
		let mut x = Bin(0);
		for _ in 0..nc {
			let l = c.rng.below(2) as u8;
			x = add(x, Con(l, bx(tree(&mut c.rng, &o))));
		}
		let vals = vec![c.rng.range(0, 3)];
		c.desc(format!("{} with placeholders {:?} over {}", x, vals, R::NAME));
		let dict: HashMap<u8, R> = vals.iter().enumerate().map(|(i, v)| (i as u8, R::n(*v))).collect();
		unsat_check::<R>(c, &x, &dict, &vals)
	}
	t.family("labels (f64)", 6400, 160000, go::<f64>);
	t.family("labels (i64)", 4000, 100000, go::<i64>);
	t.family("labels (i32)", 2400, 40000, go::<i32>);
	t.family("labels (f32)", 2400, 40000, go::<f32>);
	t.family("labels (i128)", 800, 16000, go::<i128>);
	t.family("equality of sums (i32)", 2400, 40000, |c| {
		let k = c.rng.range(-1, 3);
		let mut s = Num(-k);
		for v in 0..2 + c.rng.us(2) {
			s = add(s, if c.rng.bool() { Bin(v) } else { Spin(v) });
		}
		let x = Con(0, bx(if c.rng.bool() { mul(s.clone(), s) } else { s }));
		c.desc(x.to_string());
		unsat_check::<i32>(c, &x, &HashMap::new(), &[])
	});
	// values around the threshold, built without the integer AST
	let near: Vec<f64> = vec![
		0.0, 1e-4, -1e-4, 0.99e-4, -0.99e-4, 1.01e-4, -1.01e-4, 5e-5, 2e-4, 1e-3, -1e-3, 1e-5, -1e-12, 0.5, -0.5, 1.0, -1.0, 1e3, -1e3, 0.0101, -0.0099, 0.01,
		9.999999e-5, 1.0000001e-4,
	];
	t.family("values around the threshold (f64)", near.len() as u64 * 3, near.len() as u64 * 3, |c| {
		let v = near[c.idx as usize / 3];
		let kind = c.idx % 3;
		c.desc(format!("constraint of value {:e}, form {}", v, kind));
		let body: Ex<f64, u8> = match kind {
			0 => Expr::Mul(bx(Expr::Number(v)), bx(Expr::Binary(1))),
			1 => Expr::Add(bx(Expr::Number(v)), bx(Expr::Mul(bx(Expr::Number(0.0)), bx(Expr::Binary(1))))),
			_ => Expr::Mul(bx(Expr::Number(-v)), bx(Expr::Spin(1))),
		};
		let e: Ex<f64, u8> = Expr::Add(bx(Expr::Constraint { label: 4, expr: bx(body) }), bx(Expr::Binary(0)));
		with_model(e, &HashMap::new(), Some(1.0), |run, _, _| {
			for on in [false, true] {
				let o = run(&|n| vec![on; n])?;
				let val = match kind {
					0 => if on { v } else { 0.0 },
					1 => v,
					_ => if on { -v } else { v },
				};
				let want: Vec<u8> = if val.abs() >= 1.0e-4 { vec![4] } else { vec![] };
				if o.unsat != want {
					return Err(format!("value {:e}: reported {:?}", val, o.unsat));
				}
			}
			Ok(())
		})
	});
	t.family("values around the threshold (f32)", near.len() as u64, near.len() as u64, |c| {
		let v = near[c.idx as usize] as f32;
		c.desc(format!("constraint of value {:e}", v));
		if ((v as f64).abs() - 1e-4).abs() < 1e-8 {
			c.trivial();
			return Ok(());
		}
		let e: Ex<f32, u8> = Expr::Constraint { label: 4, expr: bx(Expr::Mul(bx(Expr::Number(v)), bx(Expr::Binary(1)))) };
		with_model(e, &HashMap::new(), Some(1.0), |run, _, _| {
			let o = run(&|n| vec![true; n])?;
			if o.unsat.is_empty() == ((v as f64).abs() >= 1.0e-4) {
				return Err(format!("value {:e}: reported {:?}", v, o.unsat));
			}
			Ok(())
		})
	});
}

pub fn c07(t: &mut Ctx) {
	macro_rules! val {
		($r:ty, $e:expr, $a:expr, $p:expr) => {{
			fn go(e: &Ex<$r, ()>, a: &dyn Fn(usize) -> bool, p: &dyn Fn(u8) -> f64) -> f64 {
				match e {
					Expr::Placeholder(x) => p(*x),
					Expr::Add(x, y) => go(x, a, p) + go(y, a, p),
					Expr::Mul(x, y) => go(x, a, p) * go(y, a, p),
					Expr::Number(n) => *n as f64,
					Expr::Binary(q) => a(*q) as u8 as f64,
					Expr::Spin(q) => if a(*q) { 1.0 } else { -1.0 },
					Expr::Constraint { expr, .. } => go(expr, a, p),
					Expr::WithPenalty { expr, .. } => go(expr, a, p),
				}
			}
			go(&$e, $a, $p)
		}};
	}
	macro_rules! ops {
		($r:ty, $name:expr, $nq:expr, $nt:expr) => {
			t.family($name, $nq, $nt, |c| {
				let o = Opt { nv: 2, np: 1, deg: 3, depth: 3, coef: 2, norm: 8.0, phmag: 2.0, ..BASE };
				let x = tree(&mut c.rng, &o);
				let y = tree(&mut c.rng, &o);
				let n = c.rng.range(-3, 3);
				let nr = n as $r;
				let (xe, ye): (Ex<$r, ()>, Ex<$r, ()>) = (x.ex(), y.ex());
				let op = c.rng.below(18);
				let k = if op == 15 || op == 16 { c.rng.us(6) } else { 0 };
				let (name, z): (&str, Ex<$r, ()>) = match op {
					0 => ("x+y", xe + ye),
					1 => ("x-y", xe - ye),
					2 => ("x*y", xe * ye),
					3 => ("-x", -xe),
					4 => ("x+n", xe + nr),
					5 => ("x-n", xe - nr),
					6 => ("x*n", xe * nr),
					7 => ("n+x", nr + xe),
					8 => ("n-x", nr - xe),
					9 => ("n*x", nr * xe),
					10 => ("x+=y", { let mut z = xe; z += ye; z }),
					11 => ("x-=y", { let mut z = xe; z -= ye; z }),
					12 => ("x*=y", { let mut z = xe; z *= ye; z }),
					13 => ("x+=n", { let mut z = xe; z += nr; z }),
					14 => ("x-=n", { let mut z = xe; z -= nr; z }),
					15 => ("x^k", xe ^ k),
					16 => ("x^=k", { let mut z = xe; z ^= k; z }),
					_ => ("x*=n", { let mut z = xe; z *= nr; z }),
				};
				c.desc(format!("{} with x = {}, y = {}, n = {}, k = {} over {}", name, x, y, n, k, stringify!($r)));
				for bits in 0..4u32 {
					for pv in [-2.0, 0.0, 1.0, 2.0] {
						let a = |l: usize| bits >> l & 1 == 1;
						let p = |_: u8| pv;
						let (xv, yv, nv) = (x.val(&a, &p, &one), y.val(&a, &p, &one), n as f64);
						let want = match op {
							0 | 10 => xv + yv,
							1 | 11 => xv - yv,
							2 | 12 => xv * yv,
							3 => -xv,
							4 | 7 | 13 => xv + nv,
							5 | 14 => xv - nv,
							6 | 9 | 17 => xv * nv,
							8 => nv - xv,
							_ => xv.powi(k as i32),
						};
						let got = val!($r, z, &a, &p);
						c.ev(1);
						if got != want {
							return Err(format!("value {} instead of {} at bits {} placeholder {}: {:?}", got, want, bits, pv, z));
						}
					}
				}
				Ok(())
			});
		};
	}
	ops!(f64, "operators (f64)", 3000, 100000);
	ops!(i32, "operators (i32)", 2000, 50000);
	ops!(i64, "operators (i64)", 1000, 50000);
	ops!(i128, "operators (i128)", 1000, 50000);
	ops!(f32, "operators (f32)", 1000, 50000);
	ops!(i16, "operators (i16)", 1000, 50000);
	ops!(i8, "operators (i8)", 1000, 50000);
	// With penalties and constraints in the operands: the energy of the result
	// (value and penalties, which stay as they are) through the compiler.
	t.family("operators on expressions with penalties and constraints (i64)", 3000, 60000, |c| {
		let o = Opt { nv: 3, deg: 2, depth: 3, coef: 2, norm: 8.0, con: true, pen: true, nl: 1, ..BASE };
		let mut x = tree(&mut c.rng, &o);
		let mut y = tree(&mut c.rng, &o);
		if c.rng.bool() {
			let p = tree(&mut c.rng, &Opt { con: false, pen: false, ..o });
			x = Pen(bx(x), bx(p));
		}
		if c.rng.bool() {
			let p = tree(&mut c.rng, &Opt { con: false, pen: false, ..o });
			y = Pen(bx(y), bx(p));
		}
		let n = c.rng.range(-3, 3);
		let (xe, ye): (Ex<i64, u8>, Ex<i64, u8>) = (x.ex(), y.ex());
		let op = c.rng.below(14);
		let (name, z): (&str, Ex<i64, u8>) = match op {
			0 => ("x+y", xe + ye),
			1 => ("x-y", xe - ye),
			2 => ("x*y", xe * ye),
			3 => ("-x", -xe),
			4 => ("x+n", xe + n),
			5 => ("x-n", xe - n),
			6 => ("x*n", xe * n),
			7 => ("n+x", n + xe),
			8 => ("n-x", n - xe),
			9 => ("n*x", n * xe),
			10 => ("x+=y", { let mut z = xe; z += ye; z }),
			11 => ("x-=y", { let mut z = xe; z -= ye; z }),
			12 => ("x*=y", { let mut z = xe; z *= ye; z }),
			_ => ("x*=n", { let mut z = xe; z *= n; z }),
		};
		c.desc(format!("{} with x = {}, y = {}, n = {}", name, x, y, n));
		let mut ls = BTreeSet::new();
		x.labels(&mut ls);
		if [0, 1, 2, 10, 11, 12].contains(&op) {
			y.labels(&mut ls);
		}
		// one label: its weight is the strength
		let q = capture::<i64, u8>(z, &HashMap::new(), Some(3))?;
		let mut vs = x.varset();
		if [0, 1, 2, 10, 11, 12].contains(&op) {
			vs.extend(y.varset());
		}
		vs.sort();
		vs.dedup();
		let k = check_min(&q, &vs, 0.0, &|a| {
			let (xv, yv, nv) = (x.val2(a, &none, &|_| 3.0), y.val2(a, &none, &|_| 3.0), n as f64);
			match op {
				0 | 10 => xv.0 + yv.0 + xv.1 + yv.1,
				1 | 11 => xv.0 - yv.0 + xv.1 + yv.1,
				2 | 12 => xv.0 * yv.0 + xv.1 + yv.1,
				3 => -xv.0 + xv.1,
				4 | 7 => xv.0 + nv + xv.1,
				5 => xv.0 - nv + xv.1,
				8 => nv - xv.0 + xv.1,
				_ => xv.0 * nv + xv.1,
			}
		})?;
		c.ev(k);
		Ok(())
	});
	t.family("operands are not shared or lost in long assignments", 1600, 16000, |c| {
		let o = Opt { nv: 2, deg: 3, depth: 3, coef: 2, norm: 6.0, ..BASE };
		let mut z: Ex<f64, ()> = Expr::Number(0.0);
		let mut d = String::from("0");
		let mut want = vec![0.0f64; 4];
		for _ in 0..c.rng.us(8) {
			let y = tree(&mut c.rng, &o);
			let op = c.rng.below(4);
			d.push_str(&format!(" op{} {}", op, y));
			for bits in 0..4usize {
				let v = y.val(&|l| bits >> l & 1 == 1, &none, &one);
				match op {
					0 => want[bits] += v,
					1 => want[bits] -= v,
					2 => want[bits] *= v,
					_ => want[bits] = want[bits] * want[bits],
				}
			}
			match op {
				0 => z += y.ex::<f64, ()>(),
				1 => z -= y.ex::<f64, ()>(),
				2 => z *= y.ex::<f64, ()>(),
				_ => z ^= 2usize,
			}
			if want.iter().any(|v| v.abs() > 1e12) {
				break;
			}
		}
		c.desc(d);
		for bits in 0..4usize {
			let got = val!(f64, z, &|l| bits >> l & 1 == 1, &none);
			if got != want[bits] && want[bits].abs() < 1e15 {
				return Err(format!("value {} instead of {} at bits {}", got, want[bits], bits));
			}
		}
		Ok(())
	});
	t.family("expressions keep constraints and penalties under operators", 2400, 20000, |c| {
		let o = Opt { nv: 2, np: 1, deg: 2, depth: 3, con: true, pen: true, nl: 2, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		let e: Ex<i64, u8> = x.ex();
		fn count<R: Real>(e: &Expr<u8, usize, u8, R>) -> (usize, usize) {
			match e {
				Expr::Add(a, b) | Expr::Mul(a, b) => {
					let (p, q) = (count(a), count(b));
					(p.0 + q.0, p.1 + q.1)
				}
				Expr::Constraint { expr, .. } => {
					let p = count(expr);
					(p.0 + 1, p.1)
				}
				Expr::WithPenalty { expr, penalty } => {
					let (p, q) = (count(expr), count(penalty));
					(p.0 + q.0, p.1 + q.1 + 1)
				}
				_ => (0, 0),
			}
		}
		let n = count(&e);
		let mut z = e.clone();
		z += e.clone();
		let z = -(z * 3i64 - e);
		let m = count(&z);
		if m != (3 * n.0, 3 * n.1) {
			return Err(format!("{:?} constraints and penalties became {:?}", n, m));
		}
		Ok(())
	});
}

pub fn c08(t: &mut Ctx) {
	fn go<R: Nm>(c: &mut Case, o: &Opt) -> Result<(), String> {
		let x = tree(&mut c.rng, o);
		let mut ls = BTreeSet::new();
		x.labels(&mut ls);
		if ls.len() == 3 && R::INT {
			c.trivial();
			return Ok(());
		}
		let per = c.rng.range(1, 3);
		let s = per * ls.len().max(1) as i64;
		c.desc(format!("{} with weight {} per label over {}", x, per, R::NAME));
		if ls.is_empty() && !format!("{}", x).contains("P[") {
			c.trivial();
		}
		let q = capture::<R, u8>(x.ex(), &HashMap::new(), Some(R::n(s)))?;
		let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &none, &|_| num(per)))?;
		c.ev(n);
		Ok(())
	}
	let o = Opt { nv: 3, deg: 2, depth: 5, con: true, pen: true, nl: 2, coef: 3, norm: 1e4, phmag: 1.0, ..BASE };
	t.family("energies with constraints and penalties (f64)", 24000, 600000, |c| go::<f64>(c, &o));
	t.family("energies with constraints and penalties (i64)", 12000, 240000, |c| go::<i64>(c, &o));
	t.family("fractional energies (f64)", 8000, 160000, |c| frac(c, false, |c| go::<f64>(c, &o)));
	let o3 = Opt { deg: 3, nl: 4, ..o };
	t.family("cubic energies with constraints and penalties (f64)", 6400, 160000, |c| go::<f64>(c, &o3));
	t.family("declared constraints are kept once per occurrence", 4000, 100000, |c| {
		let o = Opt { nv: 3, deg: 2, depth: 4, con: true, pen: true, nl: 3, coef: 2, norm: 1e3, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		let mut cons = Vec::new();
		x.cons(&mut cons);
		if cons.is_empty() {
			c.trivial();
		}
		unsat_check::<f64>(c, &x, &HashMap::new(), &[])
	});
}

pub fn c10(t: &mut Ctx) {
	fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
		let small = R::NAME == "i8";
		let nv = if small { 3 } else { 1 + c.rng.us(8) };
		let terms = if small { 4 } else { 1 + c.rng.us(20) };
		let coef = if small { 4 } else { 20 };
		let lab: Vec<usize> = {
			// arbitrary labels
			let mut v: Vec<usize> = (0..nv).map(|i| i * 7 % 31).collect();
			let r = c.rng.us(nv);
			v.rotate_left(r);
			v
		};
		let mut x = Num(c.rng.range(-coef, coef));
		for _ in 0..terms {
			let k = Num(c.rng.range(-coef, coef));
			let (a, b) = (lab[c.rng.us(nv)], lab[c.rng.us(nv)]);
			x = add(
				x,
				match c.rng.below(5) {
					0 => k,
					1 | 2 => mul(k, Bin(a)),
					_ => mul(k, mul(Bin(a), Bin(b))),
				},
			);
		}
		c.desc(format!("{} over {}", x, R::NAME));
		let states: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
		with_model(x.ex::<R, ()>(), &HashMap::new(), None, |run, script, _| {
			for s in &states {
				let o = run(&|n| (0..n).map(|i| s >> (i % 64) & 1 == 1).collect())?;
				let m: HashMap<usize, bool> = o.vals.iter().cloned().collect();
				let want = x.val(&|l| m.get(&l).cloned().unwrap_or(false), &none, &one);
				if o.energy.f() != want {
					return Err(format!("energy {} reported at {:?}, the polynomial is {}", o.energy.f(), o.vals, want));
				}
				let w = weights(script.models.lock().unwrap().last().unwrap());
				if w.0.len() != m.len() {
					return Err(format!("{} nodes for {} variables", w.0.len(), m.len()));
				}
				let st: Vec<bool> = (0..w.0.len()).map(|i| s >> (i % 64) & 1 == 1).collect();
				let e = energy(&w.0, &w.1, &st);
				if o.view_energy.map(|v| v.f()) != Some(e) {
					return Err(format!("the solution states the energy {:?}, the weights give {}", o.view_energy, e));
				}
			}
			Ok(())
		})?;
		// every assignment, via the recovered index map
		let q = capture::<R, ()>(x.ex(), &HashMap::new(), None)?;
		let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &none, &one))?;
		c.ev(n);
		Ok(())
	}
	t.family("quadratic polynomials (f64)", 4800, 120000, go::<f64>);
	t.family("quadratic polynomials (i64)", 3200, 80000, go::<i64>);
	t.family("fractional polynomials (f64)", 1600, 40000, |c| frac(c, true, go::<f64>));
	t.family("quadratic polynomials (i32)", 1600, 40000, go::<i32>);
	t.family("quadratic polynomials (f32)", 1600, 40000, go::<f32>);
	t.family("quadratic polynomials (i8)", 1600, 40000, go::<i8>);
	// every coefficient is passed on as it is: many variables, all magnitudes
	t.family("single coefficients of all magnitudes (f64)", 600, 12000, |c| {
		let nv = 1 + c.rng.us(40);
		let mut want: std::collections::BTreeMap<(usize, usize), f64> = Default::default();
		for _ in 0..1 + c.rng.us(60) {
			let (i, j) = (c.rng.us(nv), c.rng.us(nv));
			let v = c.rng.range(-1000, 1000) as f64 * (2f64).powi(c.rng.range(-60, 30) as i32);
			want.insert((i.min(j), i.max(j)), v);
		}
		c.desc(format!("{:?}", want));
		let mut e: Ex<f64, ()> = Expr::Number(0.0);
		for ((i, j), v) in &want {
			let m = if i == j { Expr::Binary(*i) } else { Expr::Mul(bx(Expr::Binary(*i)), bx(Expr::Binary(*j))) };
			e = Expr::Add(bx(e), bx(Expr::Mul(bx(Expr::Number(*v)), bx(m))));
		}
		let q = capture::<f64, ()>(e, &HashMap::new(), None)?;
		let at: HashMap<usize, usize> = q.vars.iter().cloned().collect();
		let mut zero = q.clone();
		for ((i, j), v) in &want {
			let (a, b) = match (at.get(i), at.get(j)) {
				(Some(a), Some(b)) => (*a, *b),
				_ => return Err(format!("variable {} or {} is missing", i, j)),
			};
			let got = if a == b { q.lin[a] } else { q.pair[a][b] };
			if got != *v {
				return Err(format!("the weight of {{{}, {}}} is {:e} instead of {:e}", i, j, got, v));
			}
			if a == b {
				zero.lin[a] = 0.0;
			} else {
				zero.pair[a][b] = 0.0;
				zero.pair[b][a] = 0.0;
			}
			c.ev(1);
		}
		if zero.c != 0.0 || zero.lin.iter().any(|w| *w != 0.0) || zero.pair.iter().any(|r| r.iter().any(|w| *w != 0.0)) {
			return Err("there are weights that no term accounts for".into());
		}
		Ok(())
	});
	t.family("weights of labels enter the weights (f64)", 3200, 80000, |c| {
		let o = Opt { nv: 4, deg: 2, depth: 4, con: true, nl: 3, coef: 3, norm: 1e4, ..BASE };
		let x = tree(&mut c.rng, &o);
		let mut ls = BTreeSet::new();
		x.labels(&mut ls);
		let s = 1.0 + c.rng.below(10) as f64;
		c.desc(format!("{} with strength {}", x, s));
		let q = capture::<f64, u8>(x.ex(), &HashMap::new(), Some(s))?;
		let w = s / ls.len().max(1) as f64;
		let n = check_min(&q, &x.varset(), 1e-9, &|a| x.val(a, &none, &|_| w))?;
		c.ev(n);
		Ok(())
	});
}
