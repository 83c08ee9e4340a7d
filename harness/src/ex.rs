//! Expressions of the harness, their value by definition (the oracle), and
//! their image as `rustqubo::Expr` built from the public variants.
use crate::fw::Prng;
use annealers::variable::Real;
use rustqubo::Expr;

#[derive(Clone, Debug, PartialEq)]
pub enum X {
	Num(i64),
	Bin(usize),
	Spin(usize),
	Ph(u8),
	Add(Box<X>, Box<X>),
	Mul(Box<X>, Box<X>),
	Con(u8, Box<X>),
	Pen(Box<X>, Box<X>),
}
use X::*;

pub fn add(a: X, b: X) -> X {
	Add(Box::new(a), Box::new(b))
}
pub fn mul(a: X, b: X) -> X {
	Mul(Box::new(a), Box::new(b))
}

impl std::fmt::Display for X {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Num(n) => write!(f, "{}", num(*n)),
			Bin(q) => write!(f, "b{}", q),
			Spin(q) => write!(f, "s{}", q),
			Ph(p) => write!(f, "p{}", p),
			Add(a, b) => write!(f, "({} + {})", a, b),
			Mul(a, b) => write!(f, "{}*{}", a, b),
			Con(l, e) => write!(f, "C{}[{}]", l, e),
			Pen(e, p) => write!(f, "P[{} ; {}]", e, p),
		}
	}
}

pub type Ex<R, Tc> = Expr<u8, usize, Tc, R>;

pub fn bx<T>(t: T) -> Box<T> {
	Box::new(t)
}

/// A number as a coefficient, without going through the code under test.
thread_local! {
	static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
}
/// What the number 1 of an expression stands for; 1 outside of `frac`.
pub fn unit() -> f64 {
	UNIT.with(|u| u.get())
}
pub fn num(n: i64) -> f64 {
	n as f64 * unit()
}
struct Reset;
impl Drop for Reset {
	fn drop(&mut self) {
		UNIT.with(|u| u.set(1.0));
	}
}
/// The same case with all numbers (also those fed, and weights) scaled.
pub fn frac(c: &mut crate::fw::Case, exact: bool, f: impl Fn(&mut crate::fw::Case) -> Result<(), String>) -> Result<(), String> {
	let us = [0.5, 0.25, 0.125, 0.0078125, 0.0009765625, 0.1, 0.3];
	let u = us[c.rng.us(if exact { 4 } else { us.len() })];
	let _r = Reset;
	UNIT.with(|x| x.set(u));
	f(c)
}

pub trait Nm: Real {
	fn n(i: i64) -> Self;
	fn f(self) -> f64;
	const INT: bool;
	const NAME: &'static str;
}
macro_rules! nm {
	($($t:ty: $b:expr),*) => {$(
		impl Nm for $t {
			fn n(i: i64) -> Self { if !$b && unit() != 1.0 { return num(i) as $t; } let r = i as $t; assert!(r as i64 == i, "harness: number out of range"); r }
			fn f(self) -> f64 { self as f64 }
			const INT: bool = $b;
			const NAME: &'static str = stringify!($t);
		}
	)*};
}
nm!(i8: true, i16: true, i32: true, i64: true, i128: true, f32: false, f64: false);

pub trait Lb: Clone + Send + Sync + std::fmt::Debug + std::hash::Hash + Ord + Eq + 'static {
	fn lb(u: u8) -> Self;
}
impl Lb for u8 {
	fn lb(u: u8) -> u8 {
		u
	}
}
impl Lb for () {
	fn lb(_: u8) {}
}

impl X {
	pub fn ex<R: Nm, Tc: Lb>(&self) -> Ex<R, Tc> {
		match self {
			Num(n) => Expr::Number(R::n(*n)),
			Bin(q) => Expr::Binary(*q),
			Spin(q) => Expr::Spin(*q),
			Ph(p) => Expr::Placeholder(*p),
			Add(a, b) => Expr::Add(bx(a.ex()), bx(b.ex())),
			Mul(a, b) => Expr::Mul(bx(a.ex()), bx(b.ex())),
			Con(l, e) => Expr::Constraint { label: Tc::lb(*l), expr: bx(e.ex()) },
			Pen(e, p) => Expr::WithPenalty { expr: bx(e.ex()), penalty: bx(p.ex()) },
		}
	}
	/// (value, penalties) at an assignment; the energy is their sum.
	pub fn val2(&self, a: &dyn Fn(usize) -> bool, ph: &dyn Fn(u8) -> f64, w: &dyn Fn(u8) -> f64) -> (f64, f64) {
		match self {
			Num(n) => (num(*n), 0.0),
			Bin(q) => (if a(*q) { 1.0 } else { 0.0 }, 0.0),
			Spin(q) => (if a(*q) { 1.0 } else { -1.0 }, 0.0),
			Ph(p) => (ph(*p), 0.0),
			Add(x, y) => {
				let (x, y) = (x.val2(a, ph, w), y.val2(a, ph, w));
				(x.0 + y.0, x.1 + y.1)
			}
			Mul(x, y) => {
				let (x, y) = (x.val2(a, ph, w), y.val2(a, ph, w));
				(x.0 * y.0, x.1 + y.1)
			}
			Con(l, e) => {
				let e = e.val2(a, ph, w);
				(e.0 * w(*l), e.1)
			}
			Pen(e, p) => {
				let (e, p) = (e.val2(a, ph, w), p.val2(a, ph, w));
				(e.0, e.1 + p.1 + p.0)
			}
		}
	}
	pub fn val(&self, a: &dyn Fn(usize) -> bool, ph: &dyn Fn(u8) -> f64, w: &dyn Fn(u8) -> f64) -> f64 {
		let (x, y) = self.val2(a, ph, w);
		x + y
	}
	/// value of the expression read as a constraint: labels are transparent
	pub fn raw(&self, a: &dyn Fn(usize) -> bool, ph: &dyn Fn(u8) -> f64) -> f64 {
		self.val2(a, ph, &|_| 1.0).0
	}
	pub fn vars(&self, o: &mut std::collections::BTreeSet<usize>) {
		match self {
			Bin(q) | Spin(q) => {
				o.insert(*q);
			}
			Add(a, b) | Mul(a, b) | Pen(a, b) => {
				a.vars(o);
				b.vars(o);
			}
			Con(_, e) => e.vars(o),
			_ => {}
		}
	}
	pub fn varset(&self) -> Vec<usize> {
		let mut o = Default::default();
		self.vars(&mut o);
		o.into_iter().collect()
	}
	pub fn phs(&self, o: &mut std::collections::BTreeSet<u8>) {
		match self {
			Ph(q) => {
				o.insert(*q);
			}
			Add(a, b) | Mul(a, b) | Pen(a, b) => {
				a.phs(o);
				b.phs(o);
			}
			Con(_, e) => e.phs(o),
			_ => {}
		}
	}
	pub fn labels(&self, o: &mut std::collections::BTreeSet<u8>) {
		match self {
			Add(a, b) | Mul(a, b) | Pen(a, b) => {
				a.labels(o);
				b.labels(o);
			}
			Con(l, e) => {
				o.insert(*l);
				e.labels(o)
			}
			_ => {}
		}
	}
	/// declared constraints, one entry per occurrence
	pub fn cons<'a>(&'a self, o: &mut Vec<(u8, &'a X)>) {
		match self {
			Add(a, b) | Mul(a, b) | Pen(a, b) => {
				a.cons(o);
				b.cons(o);
			}
			Con(l, e) => {
				o.push((*l, &**e));
				e.cons(o)
			}
			_ => {}
		}
	}
	pub fn deg(&self) -> usize {
		match self {
			Num(_) | Ph(_) => 0,
			Bin(_) | Spin(_) => 1,
			Add(a, b) => a.deg().max(b.deg()),
			Mul(a, b) => a.deg() + b.deg(),
			Con(_, e) => e.deg(),
			Pen(e, p) => e.deg().max(p.deg()),
		}
	}
	/// bound of the sum of the absolute coefficients after expansion
	pub fn norm(&self, ph: f64) -> f64 {
		match self {
			Num(n) => (*n as f64).abs().max(1.0),
			Ph(_) => ph,
			Bin(_) => 1.0,
			Spin(_) => 3.0,
			Add(a, b) => a.norm(ph) + b.norm(ph),
			Mul(a, b) => a.norm(ph) * b.norm(ph),
			Con(_, e) => e.norm(ph),
			Pen(e, p) => e.norm(ph) + p.norm(ph),
		}
	}
	pub fn subst(&self, d: &dyn Fn(u8) -> Option<i64>) -> X {
		match self {
			Ph(p) => d(*p).map(Num).unwrap_or(Ph(*p)),
			Add(a, b) => Add(bx(a.subst(d)), bx(b.subst(d))),
			Mul(a, b) => Mul(bx(a.subst(d)), bx(b.subst(d))),
			Con(l, e) => Con(*l, bx(e.subst(d))),
			Pen(e, p) => Pen(bx(e.subst(d)), bx(p.subst(d))),
			o => o.clone(),
		}
	}
}

#[derive(Clone, Copy)]
pub struct Opt {
	pub nv: usize,
	pub np: u8,
	pub nl: u8,
	pub depth: usize,
	pub deg: usize,
	pub coef: i64,
	pub spin: bool,
	pub con: bool,
	pub pen: bool,
	pub norm: f64,
	pub phmag: f64,
}
pub const BASE: Opt = Opt {
	nv: 4,
	np: 0,
	nl: 0,
	depth: 4,
	deg: 4,
	coef: 5,
	spin: true,
	con: false,
	pen: false,
	norm: 1e4,
	phmag: 1.0,
};

fn raw(r: &mut Prng, o: &Opt, depth: usize, deg: usize, incon: bool) -> X {
	let leaf = depth == 0 || r.below(8) == 0;
	if leaf {
		let k = r.below(10);
		if deg == 0 || k < 3 {
			if o.np > 0 && r.below(2) == 0 {
				return Ph(r.below(o.np as u64) as u8);
			}
			return Num(r.range(-o.coef, o.coef));
		}
		let v = r.us(o.nv);
		return if o.spin && r.below(3) == 0 { Spin(v) } else { Bin(v) };
	}
	let k = r.below(20);
	if k < 2 && o.con && !incon {
		return Con(r.below(o.nl as u64) as u8, bx(raw(r, o, depth - 1, deg, true)));
	}
	if k < 4 && o.pen && !incon {
		return Pen(bx(raw(r, o, depth - 1, deg, incon)), bx(raw(r, o, depth - 1, deg, incon)));
	}
	if k < 12 || deg == 0 {
		add(raw(r, o, depth - 1, deg, incon), raw(r, o, depth - 1, deg, incon))
	} else {
		let d1 = if deg > 0 { r.us(deg + 1) } else { 0 };
		mul(raw(r, o, depth - 1, d1, incon), raw(r, o, depth - 1, deg - d1, incon))
	}
}

pub fn tree(r: &mut Prng, o: &Opt) -> X {
	let mut depth = o.depth;
	loop {
		for _ in 0..20 {
			let x = raw(r, o, depth, o.deg, false);
			if x.norm(o.phmag) <= o.norm && x.deg() <= o.deg {
				return x;
			}
		}
		depth -= 1;
	}
}

/// product of the variables in `set` (bit mask) times a coefficient
pub fn mono(coef: X, set: u32) -> X {
	let mut x = coef;
	for i in 0..32 {
		if set >> i & 1 == 1 {
			x = mul(x, Bin(i));
		}
	}
	x
}

/// sum of monomials
pub fn poly(ms: &[(X, u32)]) -> X {
	let mut it = ms.iter();
	let mut x = match it.next() {
		Some((c, s)) => mono(c.clone(), *s),
		None => Num(0),
	};
	for (c, s) in it {
		x = add(x, mono(c.clone(), *s));
	}
	x
}
