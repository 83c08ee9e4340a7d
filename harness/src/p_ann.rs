//! C11-C15, C17-C21: the annealers and classical_solver crates.
use crate::fw::*;
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel, Neighbors, Prods, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, StructuredSolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::*;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use classical_solver::NoneError;
use rand::{Rng, RngCore};
use std::collections::{BTreeMap, BTreeSet};

type FQ<N> = FixedSingleQuadricModel<N>;

fn fw<N: SingleNode>(m: &FQ<N>, i: usize, j: usize) -> N::RealType {
	<FQ<N> as FixedSingleModelView>::get_weight(m, &[i.min(j), i.max(j)])
}

pub fn c11(t: &mut Ctx) {
	fn hist<R: crate::ex::Nm>(c: &mut Case, n: usize, steps: usize) -> Result<(), String> {
		let mut m: FQ<Binary<R>> = FixedSingleQuadricModel::new(Binary::new(), n);
		let mut sh: BTreeMap<(usize, usize), i64> = BTreeMap::new();
		let mut log = format!("size {} over {}:", n, R::NAME);
		for _ in 0..steps {
			if n == 0 {
				break;
			}
			let (i, j, w) = (c.rng.us(n), c.rng.us(n), c.rng.range(-4, 4));
			log.push_str(&format!(" ({},{})+={}", i, j, w));
			c.desc(log.clone());
			m.add_weight(i, j, R::n(w));
			*sh.entry((i.min(j), i.max(j))).or_insert(0) += w;
		}
		c.desc(log);
		for i in 0..n {
			for j in i..n {
				let got = fw(&m, i, j).f();
				let want = sh.get(&(i, j)).cloned().unwrap_or(0) as f64;
				c.ev(1);
				if got != want {
					return Err(format!("weight of {{{}, {}}} is {}, added were {}", i, j, got, want));
				}
				let again = <FQ<Binary<R>> as SingleModelView>::get_weight(&m, &[i, j]).f();
				if again != want {
					return Err(format!("view weight of {{{}, {}}} is {} instead of {}", i, j, again, want));
				}
			}
		}
		if <FQ<Binary<R>> as FixedSingleModelView>::size(&m) != n {
			return Err("size changed".into());
		}
		Ok(())
	}
	t.family("one weight at a time, every pair", 30, 120, |c| {
		let n = c.idx as usize;
		for i in 0..n {
			for j in 0..n {
				let mut m: FQ<Spin<i64>> = FixedSingleQuadricModel::new(Spin::new(), n);
				c.desc(format!("size {}: ({},{})+=5", n, i, j));
				m.add_weight(i, j, 5);
				for a in 0..n {
					for b in a..n {
						let want = if (a, b) == (i.min(j), i.max(j)) { 5 } else { 0 };
						c.ev(1);
						if fw(&m, a, b) != want {
							return Err(format!("weight of {{{}, {}}} is {} instead of {}", a, b, fw(&m, a, b), want));
						}
					}
				}
			}
		}
		Ok(())
	});
	t.family("histories (f64)", 2400, 40000, |c| {
		let (n, s) = (c.rng.us(12), c.rng.us(40));
		hist::<f64>(c, n, s)
	});
	t.family("histories (i32)", 2400, 40000, |c| {
		let (n, s) = (c.rng.us(12), c.rng.us(40));
		hist::<i32>(c, n, s)
	});
	t.family("large models (i64)", 48, 240, |c| {
		let n = 50 + c.rng.us(300);
		hist::<i64>(c, n, 5000)
	});
	fn distinct(c: &mut Case, n: usize) -> Result<(), String> {
		c.desc(format!("size {}: weight k for the k-th pair", n));
		let mut m: FQ<Binary<i64>> = FixedSingleQuadricModel::new(Binary::new(), n);
		let mut k = 1;
		for i in 0..n {
			for j in i..n {
				if k % 2 == 0 {
					m.add_weight(i, j, k)
				} else {
					m.add_weight(j, i, k)
				}
				k += 1;
			}
		}
		let mut k = 1;
		for i in 0..n {
			for j in i..n {
				if fw(&m, i, j) != k {
					return Err(format!("weight of {{{}, {}}} is {} instead of {}", i, j, fw(&m, i, j), k));
				}
				k += 1;
			}
		}
		c.ev(k as u64);
		Ok(())
	}
	t.family("distinct pairs have distinct storage", 260, 1040, |c| {
		let n = c.idx as usize;
		distinct(c, n)
	});
	t.family("distinct pairs have distinct storage, large models", 6, 24, |c| {
		let n = [300, 363, 400, 513, 700, 1030][c.idx as usize % 6] + c.idx as usize / 6;
		distinct(c, n)
	});
	t.family("indices outside of the model are rejected", 30, 120, |c| {
		let n = c.idx as usize;
		for i in 0..n + 3 {
			for j in 0..n + 3 {
				if i < n && j < n {
					continue;
				}
				c.desc(format!("size {}: ({},{})", n, i, j));
				c.ev(1);
				let mut m: FQ<Binary<i64>> = FixedSingleQuadricModel::new(Binary::new(), n);
				if !panics(|| m.add_weight(i, j, 1)) {
					return Err("add_weight accepted the pair".into());
				}
				if i <= j && !panics(|| fw(&m, i, j)) {
					return Err("get_weight accepted the pair".into());
				}
				for a in 0..n {
					for b in a..n {
						if fw(&m, a, b) != 0 {
							return Err(format!("weight of {{{}, {}}} changed", a, b));
						}
					}
				}
			}
		}
		Ok(())
	});
}

pub fn c12(t: &mut Ctx) {
	fn check<S: NodeSet>(c: &mut Case, what: &str, n: usize, got: Vec<S>, want: BTreeSet<BTreeSet<usize>>) -> Result<(), String> {
		c.ev(got.len() as u64);
		let mut seen = BTreeSet::new();
		for p in &got {
			let s: BTreeSet<usize> = p.iter().collect();
			if !want.contains(&s) {
				return Err(format!("{} of size {} contain {:?}", what, n, p));
			}
			if !seen.insert(s) {
				return Err(format!("{} of size {} contain {:?} twice", what, n, p));
			}
		}
		if let Some(w) = want.difference(&seen).next() {
			return Err(format!("{} of size {} lack {:?}", what, n, w));
		}
		Ok(())
	}
	fn all(n: usize) -> BTreeSet<BTreeSet<usize>> {
		let mut w = BTreeSet::new();
		for i in 0..n {
			for j in i..n {
				w.insert(vec![i, j].into_iter().collect());
			}
		}
		w
	}
	t.family("products of a model", 120, 480, |c| {
		let n = c.idx as usize;
		c.desc(format!("prods() of size {}", n));
		let m: FQ<Binary<f64>> = FixedSingleQuadricModel::new(Binary::new(), n);
		let lim = n * (n + 1) / 2 + 5;
		let got: Vec<[usize; 2]> = SingleModelView::prods(&m).into_iter().take(lim).collect();
		if got.iter().any(|p| p[0] > p[1]) {
			return Err("an unordered pair was listed".into());
		}
		check(c, "products", n, got, all(n))?;
		let got: Vec<BTreeSet<usize>> = Prods::new(2, n).take(lim).collect();
		check(c, "products (ordered sets)", n, got, all(n))?;
		let got: Vec<Vec<usize>> = Prods::new(2, n).take(lim).collect();
		check(c, "products (vectors)", n, got, all(n))?;
		let mut it: Prods<[usize; 2]> = Prods::new(2, n);
		while it.next().is_some() {}
		for _ in 0..n + 3 {
			if let Some(p) = it.next() {
				return Err(format!("{:?} is listed after the end", p));
			}
		}
		let nodes: Vec<usize> = SingleModelView::nodes(&m).into_iter().collect();
		if nodes != (0..n).collect::<Vec<_>>() || SingleModelView::size(&m) != n {
			return Err(format!("nodes are {:?}", nodes));
		}
		Ok(())
	});
	t.family("neighbours", 60, 240, |c| {
		let n = c.idx as usize;
		let m: FQ<Spin<i32>> = FixedSingleQuadricModel::new(Spin::new(), n);
		for u in 0..n {
			c.desc(format!("neighbors({}) of size {}", u, n));
			let want: BTreeSet<BTreeSet<usize>> = (0..n).map(|v| vec![u, v].into_iter().collect()).collect();
			let got: Vec<[usize; 2]> = SingleModelView::neighbors(&m, u).into_iter().take(n + 5).collect();
			if got.iter().any(|p| p[0] > p[1]) {
				return Err("an unordered pair was listed".into());
			}
			check(c, "neighbours", n, got, want.clone())?;
			let got: Vec<Vec<usize>> = Neighbors::new(u, 2, n).take(n + 5).collect();
			check(c, "neighbours (vectors)", n, got, want.clone())?;
			let got: Vec<BTreeSet<usize>> = Neighbors::new(u, 2, n).take(n + 5).collect();
			check(c, "neighbours (ordered sets)", n, got, want.clone())?;
			let mut it: Neighbors<[usize; 2]> = Neighbors::new(u, 2, n);
			while it.next().is_some() {}
			for _ in 0..3 {
				if let Some(p) = it.next() {
					return Err(format!("{:?} is listed after the end", p));
				}
			}
		}
		Ok(())
	});
}

/// An rng whose draws are all the same.
#[derive(Clone)]
pub struct Const {
	pub v: u64,
	pub draws: u64,
}
impl RngCore for Const {
	fn next_u32(&mut self) -> u32 {
		self.draws += 1;
		(self.v >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.draws += 1;
		self.v
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d {
			*b = (self.v >> 56) as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}
/// A seeded rng.
#[derive(Clone)]
pub struct Seeded(pub Prng);
impl RngCore for Seeded {
	fn next_u32(&mut self) -> u32 {
		(self.0.u64() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.0.u64()
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		for b in d {
			*b = self.0.u64() as u8;
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

pub fn c13(t: &mut Ctx) {
	fn same(r: &BinaryRepr, v: &[bool]) -> Result<(), String> {
		if r.len() != v.len() || r.is_empty() != v.is_empty() {
			return Err(format!("length is {} instead of {}", r.len(), v.len()));
		}
		if r.to_vec() != v {
			return Err(format!("to_vec is {:?} instead of {:?}", r.to_vec(), v));
		}
		let it: Vec<bool> = r.iter().take(v.len() + 3).collect();
		if it != v {
			return Err(format!("iter gives {:?} instead of {:?}", it, v));
		}
		for i in 0..v.len() {
			if r.get(i) != v[i] || r[i] != v[i] || unsafe { r.get_unchecked(i) } != v[i] {
				return Err(format!("bit {} reads {} instead of {}", i, r.get(i), v[i]));
			}
		}
		Ok(())
	}
	t.family("construction of every length", 600, 2400, |c| {
		let n = c.idx as usize;
		for k in 0..6 {
			let v: Vec<bool> = (0..n).map(|i| match k { 0 => false, 1 => true, 2 => i % 2 == 0, _ => c.rng.bool() }).collect();
			c.desc(format!("from_vec({:?})", v.iter().map(|b| *b as u8).collect::<Vec<_>>()));
			c.ev(1);
			same(&BinaryRepr::from_vec(&v), &v)?;
		}
		let z = unsafe { BinaryRepr::with_len_unchecked(n) };
		if z.len() != n || z.to_vec().len() != n {
			return Err("with_len_unchecked gives another length".into());
		}
		let r = BinaryRepr::new_random(n, &mut Seeded(Prng::new(c.idx)));
		if r.len() != n || r.to_vec().len() != n {
			return Err("new_random gives another length".into());
		}
		Ok(())
	});
	t.family("every single operation", 80, 320, |c| {
		let n = c.idx as usize;
		for i in 0..n {
			for op in 0..6 {
				let mut v: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
				let mut r = BinaryRepr::from_vec(&v);
				let keep = r.clone();
				let before = v.clone();
				c.desc(format!("operation {} at {} on {:?}", op, i, v.iter().map(|b| *b as u8).collect::<Vec<_>>()));
				c.ev(1);
				match op {
					0 => { r.set(i, true); v[i] = true }
					1 => { r.set(i, false); v[i] = false }
					2 => { r.flip(i); v[i] = !v[i] }
					3 => { unsafe { r.set_unchecked(i, true) }; v[i] = true }
					4 => { unsafe { r.set_unchecked(i, false) }; v[i] = false }
					_ => { unsafe { r.flip_unchecked(i) }; v[i] = !v[i] }
				}
				same(&r, &v)?;
				same(&keep, &before)?;
			}
		}
		Ok(())
	});
	t.family("histories", 3200, 80000, |c| {
		let n = 1 + c.rng.us(40);
		let mut v: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
		let mut r = BinaryRepr::from_vec(&v);
		let mut d = format!("from {:?}:", v.iter().map(|b| *b as u8).collect::<Vec<_>>());
		for _ in 0..c.rng.us(30) {
			let i = c.rng.us(n);
			match c.rng.below(3) {
				0 => { r.set(i, true); v[i] = true; d.push_str(&format!(" set {}", i)) }
				1 => { r.set(i, false); v[i] = false; d.push_str(&format!(" clear {}", i)) }
				_ => { r.flip(i); v[i] = !v[i]; d.push_str(&format!(" flip {}", i)) }
			}
		}
		c.desc(d);
		same(&r, &v)
	});
	t.family("positions beyond the length are rejected", 100, 400, |c| {
		let n = c.idx as usize;
		let v: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
		for i in n..n + 18 {
			c.desc(format!("length {}, position {}", n, i));
			let mut r = BinaryRepr::from_vec(&v);
			c.ev(4);
			if !panics(|| r.get(i)) || !panics(|| r[i]) {
				return Err("get accepted the position".into());
			}
			if !panics(|| r.set(i, true)) || !panics(|| r.set(i, false)) {
				return Err("set accepted the position".into());
			}
			if !panics(|| r.flip(i)) {
				return Err("flip accepted the position".into());
			}
			same(&r, &v)?;
		}
		Ok(())
	});
}

fn ref_energy(ws: &BTreeMap<BTreeSet<usize>, i64>, s: &[bool], tv: i64, fv: i64) -> i64 {
	ws.iter().map(|(k, w)| w * k.iter().map(|i| if s[*i] { tv } else { fv }).product::<i64>()).sum()
}

fn rand_ws(r: &mut Prng, n: usize, terms: usize, deg: usize, w: i64) -> BTreeMap<BTreeSet<usize>, i64> {
	let mut m = BTreeMap::new();
	if n == 0 {
		return m;
	}
	for _ in 0..terms {
		let d = 1 + r.us(deg);
		let s: BTreeSet<usize> = (0..d).map(|_| r.us(n)).collect();
		m.insert(s, r.range(-w, w));
	}
	m
}

pub fn c14(t: &mut Ctx) {
	fn check<N: SingleNode, P: SingleModelView<Node = N>>(
		c: &mut Case,
		m: &P,
		ws: &BTreeMap<BTreeSet<usize>, i64>,
		n: usize,
		tv: i64,
		fv: i64,
	) -> Result<(), String>
	where
		N::RealType: crate::ex::Nm,
	{
		use crate::ex::Nm;
		let states: Vec<u64> = if n <= 4 { (0..1 << n).collect() } else { (0..8).map(|_| c.rng.u64()).collect() };
		for b in states {
			let s: Vec<bool> = (0..n).map(|i| b >> i & 1 == 1).collect();
			let want = ref_energy(ws, &s, tv, fv);
			let sol: SingleSolution<N> = SingleSolution::from_vec(&s);
			let e = sol.calculate_energy(m).f();
			c.ev(1);
			if e != want as f64 {
				return Err(format!("energy of {:?} is {} instead of {}", s, e, want));
			}
			if sol.state.to_vec() != s {
				return Err("calculating the energy changed the state".into());
			}
			let sol = sol.with_energy(m);
			if sol.energy.map(|v| v.f()) != Some(want as f64) || sol.state.to_vec() != s || sol.len() != n {
				return Err(format!("with_energy: {:?} at {:?}", sol.energy, s));
			}
			for i in 0..n {
				if sol[i] != s[i] || sol.get(i) != s[i] {
					return Err(format!("node {} reads {}", i, sol[i]));
				}
			}
			let lf = sol.clone().calculate_local_field(m);
			let sol = sol.with_local_field(m);
			if sol.state.to_vec() != s {
				return Err(format!("the local field changed the state {:?} to {:?}", s, sol.state.to_vec()));
			}
			if sol.calculate_energy(m).f() != want as f64 {
				return Err("the energy changed".into());
			}
			let lf2 = sol.local_field.clone().ok_or("no local field")?;
			for i in 0..n {
				let mut s2 = s.clone();
				s2[i] = !s2[i];
				let w = ref_energy(ws, &s2, tv, fv) - want;
				if lf.len() != n || lf[i].f() != w as f64 || lf2[i].f() != w as f64 {
					return Err(format!("local field at {} in state {:?} is {:?} instead of {}", i, s, lf, w));
				}
			}
		}
		Ok(())
	}
	macro_rules! fam {
		($name:expr, $node:expr, $r:ty, $tv:expr, $fv:expr, $nq:expr, $nt:expr) => {
			t.family(concat!("dense models, ", $name), $nq, $nt, |c| {
				let n = c.rng.us(6);
				let k = c.rng.us(12);
				let ws = rand_ws(&mut c.rng, n, k, 2, 3);
				c.desc(format!("size {} weights {:?}", n, ws));
				let mut m = FixedSingleQuadricModel::new($node, n);
				for (s, w) in &ws {
					let v: Vec<usize> = s.iter().cloned().collect();
					m.add_weight(v[0], *v.last().unwrap(), *w as $r);
				}
				check(c, &m, &ws, n, $tv, $fv)
			});
			t.family(concat!("sparse models, ", $name), $nq, $nt, |c| {
				let n = 1 + c.rng.us(6);
				let k = c.rng.us(8);
				let ws = rand_ws(&mut c.rng, n, k, 2, 3);
				c.desc(format!("size {} weights {:?}", n, ws));
				let mut m = SingleModel::new($node, Quadric);
				for (s, w) in &ws {
					let v: Vec<usize> = s.iter().cloned().collect();
					m.add_weight(NodeSet::from_vec(v).unwrap(), *w as $r);
				}
				check(c, &m, &ws, n, $tv, $fv)
			});
			t.family(concat!("higher-order models, ", $name), $nq, $nt, |c| {
				let n = 1 + c.rng.us(6);
				let k = c.rng.us(8);
				let mut ws = rand_ws(&mut c.rng, n, k, 3, 2);
				if c.rng.below(3) == 0 {
					ws.insert(BTreeSet::new(), 2);
				}
				c.desc(format!("size {} weights {:?}", n, ws));
				let mut m = SingleModel::new($node, HighOrder::new(4));
				for (s, w) in &ws {
					m.add_weight(s.clone(), *w as $r);
				}
				check(c, &m, &ws, n, $tv, $fv)
			});
		};
	}
	fam!("binary f64", Binary::<f64>::new(), f64, 1, 0, 300, 15000);
	fam!("spin f64", Spin::<f64>::new(), f64, 1, -1, 300, 15000);
	fam!("two values f64", TwoVal::<f64>::new(5.0, -3.0), f64, 5, -3, 300, 15000);
	fam!("two values (equal) f64", TwoVal::<f64>::new(2.0, 2.0), f64, 2, 2, 50, 500);
	fam!("binary i64", Binary::<i64>::new(), i64, 1, 0, 200, 10000);
	fam!("spin i32", Spin::<i32>::new(), i32, 1, -1, 200, 10000);
	fam!("two values i64", TwoVal::<i64>::new(0, 3), i64, 0, 3, 200, 10000);
	fam!("spin f32", Spin::<f32>::new(), f32, 1, -1, 100, 5000);
	fam!("binary i128", Binary::<i128>::new(), i128, 1, 0, 100, 5000);
	t.family("local fields of what the solver returns", 2000, 40000, crate::p_solve::view_fields::<i64>);
	t.family("node values", 1, 1, |c| {
		c.desc("get_value and calculate_prod of the three nodes".into());
		let b = Binary::<i64>::new();
		let s = Spin::<i64>::new();
		let w = TwoVal::<i64>::new(7, -2);
		if (b.get_value(true), b.get_value(false)) != (1, 0) || (s.get_value(true), s.get_value(false)) != (1, -1) || (w.get_value(true), w.get_value(false)) != (7, -2) {
			return Err("a node value is wrong".into());
		}
		for n in 0..6 {
			for bits in 0..1 << n {
				let v: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
				let p = |t: i64, f: i64| v.iter().map(|x| if *x { t } else { f }).product::<i64>();
				c.ev(3);
				if b.calculate_prod(&v) != p(1, 0) || s.calculate_prod(&v) != p(1, -1) || w.calculate_prod(&v) != p(7, -2) {
					return Err(format!("product of {:?} is wrong", v));
				}
			}
		}
		Ok(())
	});
}

fn unit_draw(r: &mut impl Rng) -> f64 {
	r.gen_range(0.0, 1.0)
}

/// The annealer by definition, for a constant uniform draw. Returns None if a
/// decision is too close to call in floating point.
fn ref_anneal(ws: &BTreeMap<BTreeSet<usize>, i64>, s: &mut Vec<bool>, betas: &[f64], sweeps: usize, u: f64) -> Option<()> {
	for beta in betas {
		for _ in 0..sweeps {
			for i in 0..s.len() {
				let e0 = ref_energy(ws, s, 1, 0);
				s[i] = !s[i];
				let d = (ref_energy(ws, s, 1, 0) - e0) as f64;
				let th = 44.36142 / beta;
				let x = f64::exp(-d * beta);
				let flip = if d > th {
					false
				} else {
					d <= 0.0 || x > u
				};
				if d > 0.0 && ((d - th).abs() < 1e-4 || (u > 0.0 && (x - u).abs() < 1e-9)) {
					return None;
				}
				if !flip {
					s[i] = !s[i];
				}
			}
		}
	}
	Some(())
}

fn draws() -> Vec<u64> {
	vec![
		0,
		u64::MAX,
		1 << 63,
		1 << 62,
		3 << 62,
		1 << 60,
		15 << 60,
		1 << 55,
		1 << 50,
		0x0123456789abcdef,
		0xfedcba9876543210,
	]
}

pub fn c15(t: &mut Ctx) {
	fn betas(r: &mut Prng) -> Vec<f64> {
		let k = r.us(5);
		(0..k).map(|_| *r.pick(&[0.01, 0.1, 0.3, 0.5, 1.0, 2.0, 3.3, 7.0, 12.5, 40.0, 100.0])).collect()
	}
	macro_rules! body {
		($c:expr, $mk:expr, $r:ty, $sparse:expr) => {{
			let c = $c;
			let n = 1 + c.rng.us(7);
			let k = c.rng.us(16);
			let mut ws = rand_ws(&mut c.rng, n, k, 2, 6);
			let scale = *c.rng.pick(&[1, 1, 1, 1, 40, 1000]);
			for w in ws.values_mut() {
				if scale > 1 && c.rng.bool() {
					*w *= scale;
				}
			}
			if $sparse {
				// nodes are 0..n
				for i in 0..n {
					ws.entry(Some(i).into_iter().collect()).or_insert(0);
				}
			}
			let init: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
			let bs = betas(&mut c.rng);
			let sweeps = c.rng.us(5);
			let v = *c.rng.pick(&draws());
			let u = unit_draw(&mut Const { v, draws: 0 });
			c.desc(format!("weights {:?} state {:?} schedule {:?} sweeps {} draw {}", ws, init, bs, sweeps, u));
			if k == 0 || bs.is_empty() || sweeps == 0 {
				c.trivial();
			}
			let m = $mk(n, &ws);
			let mut st = BinaryRepr::from_vec(&init);
			let rb: Vec<$r> = bs.iter().map(|b| *b as $r).collect();
			simulated_annealing(&mut Const { v, draws: 0 }, &mut st, &rb, sweeps, &m);
			if st.len() != n {
				return Err(format!("the length of the state became {}", st.len()));
			}
			let mut want = init.clone();
			let bs64: Vec<f64> = rb.iter().map(|b| *b as f64).collect();
			if ref_anneal(&ws, &mut want, &bs64, sweeps, u).is_none() {
				c.trivial();
				return Ok(());
			}
			c.ev((bs.len() * sweeps * n) as u64);
			if st.to_vec() != want {
				return Err(format!("final state {:?}, by definition {:?}", st.to_vec(), want));
			}
			Ok(())
		}};
	}
	fn dense<R: crate::ex::Nm>(n: usize, ws: &BTreeMap<BTreeSet<usize>, i64>) -> FQ<Binary<R>> {
		let mut m = FixedSingleQuadricModel::new(Binary::new(), n);
		for (s, w) in ws {
			m.add_weight(*s.iter().next().unwrap(), *s.iter().last().unwrap(), R::n(*w));
		}
		m
	}
	fn sparse<R: crate::ex::Nm>(_n: usize, ws: &BTreeMap<BTreeSet<usize>, i64>) -> SingleModel<Binary<R>, Quadric> {
		let mut m = SingleModel::new(Binary::new(), Quadric);
		for (s, w) in ws {
			m.add_weight(NodeSet::from_vec(s.iter().cloned().collect()).unwrap(), R::n(*w));
		}
		m
	}
	t.family("dense models (f64)", 48000, 1200000, |c| body!(c, dense::<f64>, f64, false));
	t.family("sparse models (f64)", 20000, 480000, |c| body!(c, sparse::<f64>, f64, true));
	t.family("dense models (f32)", 16000, 320000, |c| body!(c, dense::<f32>, f32, false));
	t.family("dense models (i64)", 12000, 240000, |c| {
		let n = 1 + c.rng.us(6);
		let k = c.rng.us(12);
		let ws = rand_ws(&mut c.rng, n, k, 2, 6);
		let init: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
		let bs: Vec<i64> = (0..c.rng.us(4)).map(|_| c.rng.range(1, 9)).collect();
		let sweeps = c.rng.us(5);
		let v = *c.rng.pick(&draws());
		let u = unit_draw(&mut Const { v, draws: 0 });
		c.desc(format!("weights {:?} state {:?} schedule {:?} sweeps {} draw {}", ws, init, bs, sweeps, u));
		let m = dense::<i64>(n, &ws);
		let mut st = BinaryRepr::from_vec(&init);
		simulated_annealing(&mut Const { v, draws: 0 }, &mut st, &bs, sweeps, &m);
		let mut want = init.clone();
		let bf: Vec<f64> = bs.iter().map(|b| *b as f64).collect();
		if ref_anneal(&ws, &mut want, &bf, sweeps, u).is_none() {
			c.trivial();
			return Ok(());
		}
		if st.to_vec() != want {
			return Err(format!("final state {:?}, by definition {:?}", st.to_vec(), want));
		}
		Ok(())
	});
	t.family("larger models, long runs (f64)", 1200, 20000, |c| {
		let n = 8 + c.rng.us(12);
		let k = n * 3;
		let ws = rand_ws(&mut c.rng, n, k, 2, 4);
		let init: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
		let bs: Vec<f64> = (0..6).map(|_| *c.rng.pick(&[0.1, 0.25, 0.5, 1.0])).collect();
		let v = *c.rng.pick(&[1u64 << 62, 1 << 61, 1 << 60, 1 << 63]);
		let u = unit_draw(&mut Const { v, draws: 0 });
		c.desc(format!("{} nodes weights {:?} state {:?} schedule {:?} draw {}", n, ws, init, bs, u));
		let m = dense::<f64>(n, &ws);
		let mut st = BinaryRepr::from_vec(&init);
		simulated_annealing(&mut Const { v, draws: 0 }, &mut st, &bs, 6, &m);
		let mut want = init.clone();
		if ref_anneal(&ws, &mut want, &bs, 6, u).is_none() {
			c.trivial();
			return Ok(());
		}
		c.ev(36 * n as u64);
		if st.to_vec() != want {
			return Err(format!("final state {:?}, by definition {:?}", st.to_vec(), want));
		}
		Ok(())
	});
	t.family("through the solver (f64)", 4800, 80000, |c| {
		let n = 1 + c.rng.us(7);
		let k = c.rng.us(14);
		let ws = rand_ws(&mut c.rng, n, k, 2, 6);
		let bs = betas(&mut c.rng);
		let sweeps = c.rng.us(5);
		let v = *c.rng.pick(&draws());
		let u = unit_draw(&mut Const { v, draws: 0 });
		let m = dense::<f64>(n, &ws);
		let init = solve(&m, BetaType::Schedule(vec![]), sweeps, v)?;
		c.desc(format!("weights {:?} state {:?} schedule {:?} sweeps {} draw {}", ws, init, bs, sweeps, u));
		let got = solve(&m, BetaType::Schedule(bs.clone()), sweeps, v)?;
		if init.len() != n || got.len() != n {
			return Err("the state has another length than the model".into());
		}
		let mut want = init;
		if ref_anneal(&ws, &mut want, &bs, sweeps, u).is_none() {
			c.trivial();
			return Ok(());
		}
		if got != want {
			return Err(format!("final state {:?}, by definition {:?}", got, want));
		}
		Ok(())
	});
}

fn solve(m: &FQ<Binary<f64>>, b: BetaType<f64>, sweeps: usize, v: u64) -> Result<Vec<bool>, String> {
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = b;
	g.sweeps_per_round = sweeps;
	let s = g.generate(m).map_err(|e| format!("{:?}", e))?;
	let r = s.solve_with_rng(&mut Const { v, draws: 0 }).map_err(|e| format!("{:?}", e))?;
	if r.len() != 1 {
		return Err(format!("{} solutions", r.len()));
	}
	Ok(r[0].state.to_vec())
}

pub fn c21(t: &mut Ctx) {
	fn dense(n: usize, ws: &BTreeMap<BTreeSet<usize>, i64>) -> FQ<Binary<f64>> {
		let mut m = FixedSingleQuadricModel::new(Binary::new(), n);
		for (s, w) in ws {
			m.add_weight(*s.iter().next().unwrap(), *s.iter().last().unwrap(), *w as f64);
		}
		m
	}
	t.family("explicit schedules", 24000, 400000, |c| {
		let n = 1 + c.rng.us(6);
		let k = 1 + c.rng.us(14);
		let ws = rand_ws(&mut c.rng, n, k, 2, 6);
		let nb = c.rng.us(7);
		let bs: Vec<f64> = (0..nb).map(|_| *c.rng.pick(&[0.05, 0.1, 0.3, 0.5, 1.0, 2.0, 3.3, 7.0])).collect();
		let sweeps = c.rng.us(6);
		let v = *c.rng.pick(&draws());
		let u = unit_draw(&mut Const { v, draws: 0 });
		let m = dense(n, &ws);
		let mut want = solve(&m, BetaType::Schedule(vec![]), sweeps, v)?;
		c.desc(format!("weights {:?} schedule {:?} sweeps {} draw {}", ws, bs, sweeps, u));
		let got = solve(&m, BetaType::Schedule(bs.clone()), sweeps, v)?;
		if ref_anneal(&ws, &mut want, &bs, sweeps, u).is_none() {
			c.trivial();
			return Ok(());
		}
		c.ev((nb * sweeps * n) as u64);
		if got != want {
			return Err(format!("final state {:?}, by definition {:?}", got, want));
		}
		Ok(())
	});
	// With the largest draw an unfavourable flip never happens, and every visit of
	// a single node of positive weight consumes one draw: visits can be counted.
	fn visits(b: BetaType<f64>, sweeps: usize) -> Result<u64, String> {
		let mut m: FQ<Binary<f64>> = FixedSingleQuadricModel::new(Binary::new(), 1);
		m.add_weight(0, 0, 1.0);
		let run = |b: BetaType<f64>| -> Result<(u64, bool), String> {
			let mut g = SimulatedAnnealerGenerator::new();
			g.beta = b;
			g.sweeps_per_round = sweeps;
			let s = g.generate(&m).map_err(|e| format!("{:?}", e))?;
			let mut r = Const { v: u64::MAX, draws: 0 };
			let o = s.solve_with_rng(&mut r).map_err(|e| format!("{:?}", e))?;
			Ok((r.draws, o[0].state.get(0)))
		};
		let (d0, s0) = run(BetaType::Schedule(vec![]))?;
		let (d1, _) = run(b)?;
		// the first visit of a node that is set flips it without a draw
		Ok((d1 - d0) + if s0 && d1 > d0 { 1 } else { 0 })
	}
	t.family("number of entries: explicit", 600, 2400, |c| {
		let k = c.idx as usize % 15;
		let sweeps = c.idx as usize / 15;
		c.desc(format!("explicit schedule of {} entries, {} sweeps", k, sweeps));
		if k * sweeps < 2 {
			c.trivial();
			return Ok(());
		}
		let got = visits(BetaType::Schedule(vec![1.0; k]), sweeps)?;
		if got != (k * sweeps) as u64 {
			return Err(format!("{} visits instead of {}", got, k * sweeps));
		}
		Ok(())
	});
	t.family("number of entries: count and range", 1500, 6000, |c| {
		let k = 2 + c.rng.us(14);
		let sweeps = 1 + c.rng.us(6);
		let lo = *c.rng.pick(&[0.1, 0.5, 1.0]);
		let hi = lo + *c.rng.pick(&[0.0, 0.5, 3.0, 8.0]);
		c.desc(format!("count {} range {}..{}, {} sweeps", k, lo, hi, sweeps));
		let got = visits(BetaType::CountRange(k, lo, hi), sweeps)?;
		if got != (k * sweeps) as u64 {
			return Err(format!("{} visits instead of {}", got, k * sweeps));
		}
		Ok(())
	});
	t.family("number of entries: count", 1500, 6000, |c| {
		let k = 2 + c.rng.us(20);
		let sweeps = 1 + c.rng.us(6);
		c.desc(format!("count {}, {} sweeps", k, sweeps));
		let got = visits(BetaType::Count(k), sweeps)?;
		if got != (k * sweeps) as u64 {
			return Err(format!("{} visits instead of {}", got, k * sweeps));
		}
		Ok(())
	});
	t.family("parity of the number of visits", 2000, 8000, |c| {
		// without weights every visit flips: all kinds of schedule
		let n = 1 + c.rng.us(9);
		let k = 2 + c.rng.us(9);
		let sweeps = c.rng.us(6);
		let b = match c.rng.below(2) {
			0 => BetaType::Schedule(vec![1.0; k]),
			_ => BetaType::CountRange(k, 0.5, 4.0),
		};
		c.desc(format!("{} nodes without weights, {:?}, {} sweeps", n, b, sweeps));
		let m: FQ<Binary<f64>> = FixedSingleQuadricModel::new(Binary::new(), n);
		let v = *c.rng.pick(&draws());
		let init = solve(&m, BetaType::Schedule(vec![]), sweeps, v)?;
		let got = solve(&m, b, sweeps, v)?;
		let want: Vec<bool> = init.iter().map(|x| *x ^ (k * sweeps % 2 == 1)).collect();
		if got != want {
			return Err(format!("final state {:?} instead of {:?}", got, want));
		}
		Ok(())
	});
}

pub fn c17(t: &mut Ctx) {
	t.family("pairs", 3000, 12000, |c| {
		let (i, j) = (c.idx as usize % 26, c.idx as usize / 26);
		c.desc(format!("[{}, {}]", i, j));
		let want: BTreeSet<usize> = vec![i, j].into_iter().collect();
		let lst: Vec<usize> = want.iter().cloned().collect();
		let p = <[usize; 2] as NodeSet>::from_vec(vec![i, j]).ok_or("rejected")?;
		let q = <[usize; 2] as NodeSet>::from_vec(vec![j, i]).ok_or("rejected")?;
		let s = <[usize; 2] as NodeSet>::from_set(want.clone()).ok_or("set rejected")?;
		let f = <[usize; 2] as NodeSet>::from_it(lst.clone()).ok_or("iterator rejected")?;
		if p != q || p != s || p != f {
			return Err(format!("{:?}, {:?}, {:?} and {:?} differ", p, q, s, f));
		}
		check(c, &p, &lst, 30)
	});
	fn check<S: NodeSet>(c: &mut Case, p: &S, lst: &[usize], hi: usize) -> Result<(), String> {
		c.ev(1);
		let got: Vec<usize> = NodeSet::iter(p).take(lst.len() + 5).collect();
		if got != lst {
			return Err(format!("{:?} lists {:?} instead of {:?}", p, got, lst));
		}
		if NodeSet::len(p) != lst.len() {
			return Err(format!("length of {:?} is {} instead of {}", p, NodeSet::len(p), lst.len()));
		}
		for k in 0..hi {
			if NodeSet::contains(p, k) != lst.contains(&k) {
				return Err(format!("{:?} contains {}: {}", p, k, NodeSet::contains(p, k)));
			}
		}
		if p.clone().into_vec() != lst {
			return Err(format!("into_vec of {:?} is {:?}", p, p.clone().into_vec()));
		}
		let set: BTreeSet<usize> = lst.iter().cloned().collect();
		if p.clone().into_set() != set {
			return Err(format!("into_set of {:?} is {:?}", p, p.clone().into_set()));
		}
		Ok(())
	}
	t.family("pairs reject other numbers of nodes", 1600, 12000, |c| {
		let n = match c.idx % 4 { 0 => 0, k => 2 + k as usize };
		let v: Vec<usize> = (0..n).map(|_| c.rng.us(9)).collect();
		c.desc(format!("{:?}", v));
		let set: BTreeSet<usize> = v[..].iter().cloned().collect();
		if <[usize; 2] as NodeSet>::from_vec(v.clone()).is_some() || <[usize; 2] as NodeSet>::from_it(v).is_some() {
			return Err("accepted as a pair".into());
		}
		let k = set.len();
		if <[usize; 2] as NodeSet>::from_set(set).is_some() != (k == 1 || k == 2) {
			return Err(format!("a set of {} nodes was accepted or rejected wrongly", k));
		}
		if <[usize; 2] as NodeSet>::from_vec(vec![c.rng.us(9)]).is_none() {
			return Err("a single node was rejected".into());
		}
		Ok(())
	});
	t.family("ordered sets and vectors", 12000, 160000, |c| {
		let n = c.rng.us(8);
		let v: Vec<usize> = (0..n).map(|_| c.rng.us(10)).collect();
		let mut w = v.clone();
		for i in 0..n {
			let j = c.rng.us(n);
			w.swap(i, j);
		}
		c.desc(format!("{:?} and {:?}", v, w));
		let set: BTreeSet<usize> = v[..].iter().cloned().collect();
		let lst: Vec<usize> = set.iter().cloned().collect();
		let mut sorted = v.clone();
		sorted.sort();
		let a = <BTreeSet<usize> as NodeSet>::from_vec(v.clone()).ok_or("rejected")?;
		let b = <BTreeSet<usize> as NodeSet>::from_vec(w.clone()).ok_or("rejected")?;
		let s = <BTreeSet<usize> as NodeSet>::from_set(set.clone()).ok_or("rejected")?;
		let i = <BTreeSet<usize> as NodeSet>::from_it(w.clone()).ok_or("rejected")?;
		if a != b || a != s || a != i {
			return Err("ordered sets differ".into());
		}
		check(c, &a, &lst, 12)?;
		let a = <Vec<usize> as NodeSet>::from_vec(v).ok_or("rejected")?;
		let b = <Vec<usize> as NodeSet>::from_vec(w).ok_or("rejected")?;
		if a != b {
			return Err(format!("vectors differ: {:?} {:?}", a, b));
		}
		check(c, &a, &sorted, 12)?;
		let s = <Vec<usize> as NodeSet>::from_set(set).ok_or("rejected")?;
		check(c, &s, &lst, 12)
	});
}

pub fn c18(t: &mut Ctx) {
	fn go<O: Order>(c: &mut Case, o: O, deg: usize) -> Result<(), String> {
		let mut m = SingleModel::new(Binary::<i64>::new(), o);
		let mut sh: BTreeMap<BTreeSet<usize>, i64> = BTreeMap::new();
		let steps = c.rng.us(20);
		let hi = 3 + c.rng.us(6);
		let mut d = String::new();
		for _ in 0..steps {
			let k = 1 + c.rng.us(deg);
			let s: BTreeSet<usize> = (0..k).map(|_| c.rng.us(hi)).collect();
			let w = c.rng.range(-3, 3);
			d.push_str(&format!("{:?}+={} ", s, w));
			c.desc(d.clone());
			m.add_weight(O::NodeSetType::from_vec(s.iter().cloned().collect()).unwrap(), w);
			*sh.entry(s).or_insert(0) += w;
		}
		c.ev(steps as u64);
		let nodes: Vec<usize> = m.nodes().into_iter().collect();
		let want: BTreeSet<usize> = sh.keys().flat_map(|k| k.iter().cloned()).collect();
		if nodes != want.iter().cloned().collect::<Vec<_>>() || m.size() != want.len() {
			return Err(format!("nodes {:?} instead of {:?}", nodes, want));
		}
		let prods: Vec<O::NodeSetType> = m.prods().into_iter().collect();
		let ps: BTreeSet<BTreeSet<usize>> = prods.iter().map(|p| p.iter().collect()).collect();
		if prods.len() != ps.len() || ps != sh.keys().cloned().collect() {
			return Err(format!("products {:?}", prods));
		}
		for p in &prods {
			let w = m.get_weight(p);
			let s: BTreeSet<usize> = p.iter().collect();
			if w != sh[&s] {
				return Err(format!("weight of {:?} is {} instead of {}", p, w, sh[&s]));
			}
		}
		for u in 0..hi + 1 {
			let ns: Vec<O::NodeSetType> = m.neighbors(u).into_iter().collect();
			let got: BTreeSet<BTreeSet<usize>> = ns.iter().map(|p| p.iter().collect()).collect();
			let want: BTreeSet<BTreeSet<usize>> = sh.keys().filter(|k| k.contains(&u)).cloned().collect();
			if ns.len() != got.len() || got != want {
				return Err(format!("neighbours of {} are {:?}", u, ns));
			}
		}
		Ok(())
	}
	t.family("quadratic", 16000, 320000, |c| go(c, Quadric, 2));
	t.family("higher order", 12000, 240000, |c| go(c, HighOrder::new(5), 5));
	t.family("interleaved clones", 1600, 20000, |c| {
		let mut m = SingleModel::new(Spin::<i64>::new(), Quadric);
		m.add_weight([0, 1], 2);
		let k = m.clone();
		let w = c.rng.range(1, 5);
		c.desc(format!("clone then [0,1]+={} and [2,2]+=1", w));
		m.add_weight([0, 1], w);
		m.add_weight([2, 2], 1);
		if k.get_weight(&[0, 1]) != 2 || m.get_weight(&[0, 1]) != 2 + w || k.size() != 2 || m.size() != 3 {
			return Err("a clone shares weights".into());
		}
		Ok(())
	});
}

struct Unstr(Option<usize>);
#[derive(Debug)]
struct NoSolver;
impl Solver for NoSolver {
	type ErrorType = NoneError;
	type SolutionType = SingleSolution<Binary<f64>>;
}
impl<'a> SolverGenerator<'a, FQ<Binary<f64>>> for Unstr {
	type SolverType = NoSolver;
	type ErrorType = NoneError;
	fn generate(&self, _: &'a FQ<Binary<f64>>) -> Result<NoSolver, NoneError> {
		Ok(NoSolver)
	}
}
impl<'a> UnstructuredSolverGenerator<'a, FQ<Binary<f64>>> for Unstr {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
	fn size(&self) -> Option<usize> {
		self.0
	}
}

pub fn c19(t: &mut Ctx) {
	fn ok(c: &mut Case, list: &[BTreeSet<usize>]) -> Result<(), String> {
		c.ev(list.len() as u64);
		// no repetition, distinct nodes, all pairs among 0..k before any with k
		let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
		for p in list {
			let v: Vec<usize> = p.iter().cloned().collect();
			if v.len() != 2 {
				return Err(format!("{:?} is no pair", p));
			}
			if v[1] > 0 {
				let k = v[1];
				let lower = seen.iter().filter(|x| x.1 < k).count();
				if lower != k * (k - 1) / 2 {
					return Err(format!("{:?} is listed before all pairs below {}", p, k));
				}
			}
			if !seen.insert((v[0], v[1])) {
				return Err(format!("{:?} is listed twice", p));
			}
		}
		Ok(())
	}
	t.family("bounded", 80, 320, |c| {
		let n = c.idx as usize;
		c.desc(format!("capacity {}", n));
		let g = UnstructuredSolverGenerator::<FQ<Binary<f64>>>::into_structured(Unstr(Some(n)));
		let nodes: Vec<usize> = g.nodes().take(n + 5).collect();
		if nodes != (0..n).collect::<Vec<_>>() {
			return Err(format!("nodes {:?}", nodes));
		}
		let want = n * n.saturating_sub(1) / 2;
		let list: Vec<BTreeSet<usize>> = g.prods().take(want + 5).collect();
		ok(c, &list)?;
		if list.len() != want || list.iter().any(|p| p.iter().any(|x| *x >= n)) {
			return Err(format!("{} pairs: {:?}", list.len(), list));
		}
		let mut it = g.prods();
		while it.next().is_some() {}
		for _ in 0..n + 5 {
			if let Some(p) = it.next() {
				return Err(format!("{:?} after the end", p));
			}
		}
		Ok(())
	});
	t.family("unbounded", 60, 240, |c| {
		let k = c.idx as usize + 2;
		c.desc(format!("no capacity, the pairs of the first {} nodes", k));
		let g = UnstructuredSolverGenerator::<FQ<Binary<f64>>>::into_structured(Unstr(None));
		// once as long as a 16-bit counter, so that the list is seen not to wrap
		let far = if c.idx == 0 { 70000 } else { 200 };
		if !g.nodes().take(far).eq(0..far) {
			return Err("nodes are not 0, 1, 2, ...".into());
		}
		let list: Vec<BTreeSet<usize>> = g.prods().take(k * (k - 1) / 2).collect();
		ok(c, &list)?;
		if list.len() != k * (k - 1) / 2 || list.iter().any(|p| p.iter().any(|x| *x >= k)) {
			return Err(format!("{:?}", list));
		}
		let more: Vec<BTreeSet<usize>> = g.prods().take(k * (k - 1) / 2 + c.rng.us(k)).collect();
		ok(c, &more)
	});
}

pub fn c20(t: &mut Ctx) {
	macro_rules! ints {
		($($t:ident),*) => {$(
			t.family(concat!("integers ", stringify!($t)), 4000, 200000, |c| {
				let pick = |r: &mut Prng| -> $t {
					match r.below(6) {
						0 => *r.pick(&[0, 1, -1, $t::MAX, $t::MIN, $t::MAX - 1, $t::MIN + 1, 2, -2, 100, -100]),
						1 => r.range(-120, 120) as $t,
						_ => (((r.u64() as u128) << 64) | r.u64() as u128) as $t >> r.below($t::BITS as u64),
					}
				};
				let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
				c.desc(format!("{} and {} as {}", a, b, stringify!($t)));
				let (lo, hi) = if a < b { (a, b) } else { (b, a) };
				if <$t as Real>::min(a, b) != lo || <$t as Real>::max(a, b) != hi {
					return Err("minimum or maximum is wrong".into());
				}
				if a != $t::MIN {
					let w = if a < 0 { 0 - a } else { a };
					if <$t as Real>::abs(a) != w {
						return Err(format!("absolute value is {}", <$t as Real>::abs(a)));
					}
				}
				if !<$t as Real>::is_finite(a) {
					return Err("an integer is not finite".into());
				}
				if (a as i128).unsigned_abs() <= 1 << 53 && <$t as Real>::as_f64(&a) as i128 != a as i128 {
					return Err(format!("as f64 it is {}", <$t as Real>::as_f64(&a)));
				}
				let i = (c.rng.u64() as i32) >> c.rng.below(32);
				if (i as i128) >= $t::MIN as i128 && (i as i128) <= $t::MAX as i128 && <$t as Real>::from_i32(i) as i128 != i as i128 {
					return Err(format!("from_i32({}) is {}", i, <$t as Real>::from_i32(i)));
				}
				if <$t as Real>::MAX != $t::MAX || <$t as Real>::MIN != $t::MIN || <$t as Real>::zero() != 0 || <$t as Real>::one() != 1 {
					return Err("a constant is wrong".into());
				}
				// exact where representable
				let f = c.rng.range(-100, 100);
				if <$t as Real>::from_f64(f as f64) as i64 != f {
					return Err(format!("from_f64({}) is {}", f, <$t as Real>::from_f64(f as f64)));
				}
				Ok(())
			});
		)*};
	}
	ints!(i8, i16, i32, i64, i128);
	macro_rules! floats {
		($($t:ident $b:ident),*) => {$(
			t.family(concat!("floats ", stringify!($t)), 4000, 200000, |c| {
				let pick = |r: &mut Prng| -> $t {
					match r.below(4) {
						0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, $t::MAX, $t::MIN, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, $t::MIN_POSITIVE, 0.5, -1e-4]),
						1 => r.range(-1000, 1000) as $t / 8.0,
						_ => $t::from_bits(r.u64() as $b),
					}
				};
				let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
				c.desc(format!("{:e} and {:e} as {}", a, b, stringify!($t)));
				if !a.is_nan() && !b.is_nan() {
					let (lo, hi) = if a < b { (a, b) } else { (b, a) };
					if <$t as Real>::min(a, b) != lo || <$t as Real>::max(a, b) != hi {
						return Err("minimum or maximum is wrong".into());
					}
				} else if !a.is_nan() || !b.is_nan() {
					// a number wins over NaN
					let k = if a.is_nan() { b } else { a };
					if <$t as Real>::min(a, b) != k || <$t as Real>::max(a, b) != k {
						return Err("NaN wins over a number".into());
					}
				}
				if !a.is_nan() {
					let w = if a < 0.0 { -a } else { a };
					if <$t as Real>::abs(a) != w {
						return Err(format!("absolute value is {}", <$t as Real>::abs(a)));
					}
					if <$t as Real>::as_f64(&a) != a as f64 {
						return Err("as_f64 is wrong".into());
					}
				}
				let fin = !(a.is_nan() || a == $t::INFINITY || a == $t::NEG_INFINITY);
				if <$t as Real>::is_finite(a) != fin {
					return Err(format!("finite: {}", <$t as Real>::is_finite(a)));
				}
				let i = (c.rng.u64() as i32) >> c.rng.below(32);
				if (i.unsigned_abs() <= 1 << 24 || stringify!($t) == "f64") && <$t as Real>::from_i32(i) as f64 != i as f64 {
					return Err(format!("from_i32({}) is {}", i, <$t as Real>::from_i32(i)));
				}
				if <$t as Real>::MAX != $t::MAX || <$t as Real>::MIN != $t::MIN || <$t as Real>::zero() != 0.0 || <$t as Real>::one() != 1.0 {
					return Err("a constant is wrong".into());
				}
				Ok(())
			});
		)*};
	}
	floats!(f32 u32, f64 u64);
	macro_rules! widen {
		($($a:ident $b:ident),*) => {
			t.family("conversions to a wider type", 48000, 800000, |c| {
				$({
					type A = $a;
					type B = $b;
					let mx = conv_max(stringify!($b));
					let v = {
						let k = (((c.rng.u64() as u128) << 64) | c.rng.u64() as u128) as i128;
						let k = k >> c.rng.below(128);
						let lim = Ord::min(conv_max(stringify!($a)), mx);
						let k = if lim == i128::MAX { k } else { k % (lim + 1) };
						k
					};
					let a = v as A;
					c.desc(format!("{} from {} to {}", v, stringify!($a), stringify!($b)));
					c.ev(1);
					let exp = v as B;
					if <B as ConvertFrom<A>>::convert_from(a) != exp
						|| <A as ConvertTo<B>>::convert_to(a) != exp
						|| <A as ConvertForce<B>>::convert_force(a) != exp
						|| <A as ConvertWith<B>>::convert_lhs(a) != exp
						|| <A as ConvertWith<B>>::convert_rhs(exp) != exp
						|| <B as ConvertWith<A>>::convert_lhs(exp) != exp
						|| <B as ConvertWith<A>>::convert_rhs(a) != exp
						|| <B as ConvertForce<A>>::convert_force(exp) != a
					{
						return Err("the value changes".into());
					}
				})*
				Ok(())
			});
		};
	}
	fn conv_max(t: &str) -> i128 {
		match t {
			"i8" => i8::MAX as i128,
			"i16" => i16::MAX as i128,
			"i32" => i32::MAX as i128,
			"i64" => i64::MAX as i128,
			"i128" => i128::MAX,
			"f32" => 1 << 24,
			_ => 1 << 53,
		}
	}
	widen!(
		i8 i16, i8 i32, i8 i64, i8 i128, i8 f32, i8 f64, i16 i32, i16 i64, i16 i128, i16 f32, i16 f64, i32 i64, i32 i128, i32 f32, i32 f64, i64 i128, i64 f32,
		i64 f64, i128 f32, i128 f64, f32 f64
	);
	macro_rules! narrow {
		($($a:ident $b:ident),*) => {
			t.family("conversions of values that fit", 32000, 400000, |c| {
				$({
					let v = c.rng.range(-128, 127);
					c.desc(format!("{} from {} to {}", v, stringify!($a), stringify!($b)));
					c.ev(1);
					if <$a as ConvertForce<$b>>::convert_force(v as $a) != v as $b {
						return Err("the value changes".into());
					}
				})*
				Ok(())
			});
		};
	}
	narrow!(
		i8 i8, i16 i16, i32 i32, i64 i64, i128 i128, f32 f32, f64 f64,
		i16 i8, i32 i8, i32 i16, i64 i8, i64 i16, i64 i32, i128 i8, i128 i16, i128 i32, i128 i64, f32 i8, f32 i16, f32 i32, f32 i64, f32 i128, f64 i8, f64 i16,
		f64 i32, f64 i64, f64 i128, f64 f32
	);
}
