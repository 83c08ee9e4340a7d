//! Shared by the demonstrations: a solver that records the models it is given
//! and answers with the samples it is told to.
#![allow(dead_code)]
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::Real;
use classical_solver::NoneError;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type M<R> = FixedSingleQuadricModel<Binary<R>>;
type F = dyn Fn(usize, usize) -> Vec<Vec<bool>> + Send + Sync;

pub struct Gen<R: Real>(pub Arc<(Mutex<Vec<M<R>>>, Box<F>)>);
impl<R: Real> Clone for Gen<R> {
	fn clone(&self) -> Self {
		Gen(self.0.clone())
	}
}
impl<R: Real> Gen<R> {
	/// f(k, n): the samples of the k-th model, which has n variables
	pub fn new(f: impl Fn(usize, usize) -> Vec<Vec<bool>> + Send + Sync + 'static) -> Self {
		Gen(Arc::new((Mutex::new(vec![]), Box::new(f))))
	}
}
pub struct Sol<R>(Vec<Vec<bool>>, std::marker::PhantomData<R>);
impl<R: Real> SolverGenerator<'static, M<R>> for Gen<R> {
	type SolverType = Sol<R>;
	type ErrorType = NoneError;
	fn generate(&self, m: &'static M<R>) -> Result<Sol<R>, NoneError> {
		let mut v = (self.0).0.lock().unwrap();
		let s = ((self.0).1)(v.len(), FixedSingleModelView::size(m));
		v.push(m.clone());
		Ok(Sol(s, std::marker::PhantomData))
	}
}
impl<R: Real> UnstructuredSolverGenerator<'static, M<R>> for Gen<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Real> Solver for Sol<R> {
	type ErrorType = NoneError;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Real> ClassicalSolver for Sol<R> {
	fn solve_with_rng<T: rand::Rng>(&self, _: &mut T) -> Result<Vec<SingleSolution<Binary<R>>>, NoneError> {
		Ok(self.0.iter().map(|v| SingleSolution::from_vec(v)).collect())
	}
}
pub fn w<R: Real>(m: &M<R>, i: usize, j: usize) -> f64 {
	FixedSingleModelView::get_weight(m, &[i.min(j), i.max(j)]).as_f64()
}
pub fn energy<R: Real>(m: &M<R>, s: &[bool]) -> f64 {
	let mut e = 0.0;
	for i in 0..s.len() {
		for j in i..s.len() {
			if s[i] && s[j] {
				e += w(m, i, j);
			}
		}
	}
	e
}
pub fn state(n: usize, k: usize) -> Vec<bool> {
	(0..n).map(|i| k >> i & 1 == 1).collect()
}
pub fn near(a: f64, b: f64) -> bool {
	(a - b).abs() < 1e-6 * (1.0 + a.abs() + b.abs())
}

/// What a compiled model (without labels of its own) looks like to a solver.
pub struct View {
	pub n: usize,
	pub c: f64,
	/// energy without the constant, per state
	pub e: Vec<f64>,
	/// solver index per label
	pub at: BTreeMap<usize, usize>,
}
impl View {
	/// minimum over the auxiliaries, per assignment of the labels
	pub fn min(&self, a: &BTreeMap<usize, bool>) -> f64 {
		(0..1usize << self.n)
			.filter(|k| self.at.iter().all(|(l, i)| (k >> i & 1 == 1) == a[l]))
			.map(|k| self.e[k] + self.c)
			.fold(f64::INFINITY, f64::min)
	}
}
#[macro_export]
macro_rules! view {
	($compiled:expr, $r:ty) => {{
		let compiled = $compiled;
		let run = |k: Option<usize>| {
			let g = Gen::<$r>::new(move |_, n| vec![(0..n).map(|i| Some(i) == k).collect()]);
			let mut s = rustqubo::solve::SimpleSolver::with_solver(&compiled, g.clone());
			s.iterations = 1;
			s.generations = 1;
			s.samples = 1;
			let (e, v, _) = s.solve_with_constraints().unwrap();
			let m = (g.0).0.lock().unwrap()[0].clone();
			let on: Vec<usize> = v.keys().filter(|l| v[*l]).cloned().collect();
			(e as f64, m, on)
		};
		let (c, m, _) = run(None);
		let n = annealers::model::FixedSingleModelView::size(&m);
		let mut at = std::collections::BTreeMap::new();
		for i in 0..n {
			for l in run(Some(i)).2 {
				at.insert(l, i);
			}
		}
		View { n, c, e: (0..1usize << n).map(|k| energy(&m, &state(n, k))).collect(), at }
	}};
}
