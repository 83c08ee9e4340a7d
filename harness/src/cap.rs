//! A scripted solver: records every model it is given and returns the samples
//! it is told to.
use crate::ex::{Ex, Lb, Nm};
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::Real;
use classical_solver::NoneError;
use rustqubo::solve::SimpleSolver;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub type FM<R> = FixedSingleQuadricModel<Binary<R>>;
pub type Samples = dyn Fn(usize, usize) -> Vec<Vec<bool>> + Send + Sync;

pub struct Script<R: Real> {
	pub models: Mutex<Vec<FM<R>>>,
	pub next: Mutex<Box<dyn Fn(usize, usize) -> Vec<Vec<bool>> + Send + Sync>>,
}
pub struct Gen<R: Real>(pub Arc<Script<R>>);
impl<R: Real> Gen<R> {
	pub fn new(f: impl Fn(usize, usize) -> Vec<Vec<bool>> + Send + Sync + 'static) -> Self {
		Gen(Arc::new(Script { models: Mutex::new(Vec::new()), next: Mutex::new(Box::new(f)) }))
	}
}
pub struct Sol(Vec<Vec<bool>>, std::sync::atomic::AtomicUsize);
pub struct SolR<R: Real>(Sol, std::marker::PhantomData<R>);

impl<R: Real> SolverGenerator<'static, FM<R>> for Gen<R> {
	type SolverType = SolR<R>;
	type ErrorType = NoneError;
	fn generate(&self, model: &'static FM<R>) -> Result<SolR<R>, NoneError> {
		let n = <FM<R> as FixedSingleModelView>::size(model);
		let k = {
			let mut m = self.0.models.lock().unwrap();
			m.push(model.clone());
			m.len() - 1
		};
		let s = (self.0.next.lock().unwrap())(k, n);
		Ok(SolR(Sol(s, Default::default()), std::marker::PhantomData))
	}
}
impl<R: Real> UnstructuredSolverGenerator<'static, FM<R>> for Gen<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Real> Solver for SolR<R> {
	type ErrorType = NoneError;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Real> ClassicalSolver for SolR<R> {
	fn solve_with_rng<T: rand::Rng>(&self, _: &mut T) -> Result<Vec<SingleSolution<Binary<R>>>, NoneError> {
		self.0 .1.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
		Ok(self.0 .0.iter().map(|v| SingleSolution::from_vec(v)).collect())
	}
}

/// The weights of a captured model.
#[derive(Clone, Debug)]
pub struct Qubo {
	pub n: usize,
	pub c: f64,
	pub lin: Vec<f64>,
	pub pair: Vec<Vec<f64>>,
	/// (label, solver index)
	pub vars: Vec<(usize, usize)>,
}

pub fn weights<R: Nm>(m: &FM<R>) -> (Vec<f64>, Vec<Vec<f64>>) {
	let n = <FM<R> as FixedSingleModelView>::size(m);
	let g = |i: usize, j: usize| <FM<R> as FixedSingleModelView>::get_weight(m, &[i, j]).f();
	let lin = (0..n).map(|i| g(i, i)).collect();
	let pair = (0..n).map(|i| (0..n).map(|j| if i == j { 0.0 } else { g(i.min(j), i.max(j)) }).collect()).collect();
	(lin, pair)
}

impl Qubo {
	pub fn energy(&self, s: &[bool]) -> f64 {
		self.c + energy(&self.lin, &self.pair, s)
	}
	/// Minimum over the indices which do not belong to a variable.
	pub fn min_at(&self, a: &dyn Fn(usize) -> bool) -> Result<f64, String> {
		let n = self.n;
		let mut fixed: Vec<Option<bool>> = vec![None; n];
		for (l, i) in &self.vars {
			fixed[*i] = Some(a(*l));
		}
		let mut e = self.c;
		let mut lin = self.lin.clone();
		let free: Vec<usize> = (0..n).filter(|i| fixed[*i].is_none()).collect();
		for i in 0..n {
			if fixed[i] == Some(true) {
				e += self.lin[i];
				for j in 0..n {
					match fixed[j] {
						Some(true) if j < i => e += self.pair[i][j],
						None => lin[j] += self.pair[i][j],
						_ => {}
					}
				}
			}
		}
		// connected components of the free indices
		let mut seen = vec![false; n];
		for &f in &free {
			if seen[f] {
				continue;
			}
			let mut comp = vec![f];
			seen[f] = true;
			let mut k = 0;
			while k < comp.len() {
				let u = comp[k];
				for &v in &free {
					if !seen[v] && self.pair[u][v] != 0.0 {
						seen[v] = true;
						comp.push(v);
					}
				}
				k += 1;
			}
			if comp.len() > 20 {
				return Err("harness: too many coupled auxiliaries".into());
			}
			let m = comp.len();
			let mut best = f64::INFINITY;
			for bits in 0u32..1 << m {
				let mut x = 0.0;
				for p in 0..m {
					if bits >> p & 1 == 1 {
						x += lin[comp[p]];
						for q in 0..p {
							if bits >> q & 1 == 1 {
								x += self.pair[comp[p]][comp[q]];
							}
						}
					}
				}
				if x < best {
					best = x;
				}
			}
			e += best;
		}
		Ok(e)
	}
	pub fn coupled(&self) -> usize {
		self.n - self.vars.len()
	}
}

pub fn energy(lin: &[f64], pair: &[Vec<f64>], s: &[bool]) -> f64 {
	let mut e = 0.0;
	for i in 0..lin.len() {
		if s[i] {
			e += lin[i];
			for j in 0..i {
				if s[j] {
					e += pair[i][j];
				}
			}
		}
	}
	e
}

pub struct Out<R, Tc> {
	pub energy: R,
	pub view_energy: Option<R>,
	pub vals: Vec<(usize, bool)>,
	pub keys: BTreeSet<usize>,
	pub unsat: Vec<Tc>,
}

/// Compile, feed, and run a solver whose only sample is `state`; the number of
/// nodes is passed to it.
pub struct Probe<R: Nm, Tc: Lb> {
	pub qubits: Vec<usize>,
	pub run: Box<dyn Fn(Box<dyn Fn(usize) -> Vec<bool> + Send + Sync>) -> Out<R, Tc>>,
	pub script: Arc<Script<R>>,
}

pub fn with_model<R: Nm, Tc: Lb, T>(
	e: Ex<R, Tc>,
	dict: &HashMap<u8, R>,
	strength: Option<R>,
	f: impl FnOnce(&dyn Fn(&dyn Fn(usize) -> Vec<bool>) -> Result<Out<R, Tc>, String>, &Arc<Script<R>>, Vec<usize>) -> T,
) -> T {
	let compiled = e.compile().feed_dict(dict.clone());
	let gen: Gen<R> = Gen::new(|_, _| Vec::new());
	let script = gen.0.clone();
	let mut solver = SimpleSolver::with_solver(&compiled, gen);
	solver.iterations = 1;
	solver.generations = 1;
	solver.samples = 1;
	if let Some(s) = strength {
		solver.coeff_strength = s;
	}
	let qubits: Vec<usize> = solver.get_qubits().into_iter().cloned().collect();
	let qs = qubits.clone();
	let run = |st: &dyn Fn(usize) -> Vec<bool>| -> Result<Out<R, Tc>, String> {
		// the number of nodes is known only when the model arrives: probe it first
		let n = {
			let m = script.models.lock().unwrap();
			m.last().map(|m| <FM<R> as FixedSingleModelView>::size(m))
		};
		let n = match n {
			Some(n) => n,
			None => {
				*script.next.lock().unwrap() = Box::new(|_, n| vec![vec![false; n]]);
				let _ = solver.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
				let m = script.models.lock().unwrap();
				<FM<R> as FixedSingleModelView>::size(m.last().ok_or("no model was handed to the solver")?)
			}
		};
		let v = st(n);
		*script.next.lock().unwrap() = Box::new(move |_, _| vec![v.clone()]);
		let (en, view, unsat) = solver.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
		let keys: BTreeSet<usize> = view.keys().cloned().collect();
		let mut vals = Vec::new();
		for k in &keys {
			vals.push((*k, view.get(k).ok_or("a listed variable has no value")?));
		}
		Ok(Out { energy: en, view_energy: view.energy(), vals, keys, unsat: unsat.into_iter().cloned().collect() })
	};
	f(&run, &script, qs)
}

/// The model a solver is given for `e`.
pub fn capture<R: Nm, Tc: Lb>(e: Ex<R, Tc>, dict: &HashMap<u8, R>, strength: Option<R>) -> Result<Qubo, String> {
	with_model(e, dict, strength, |run, script, qubits| {
		let o = run(&|n| vec![false; n])?;
		let (lin, pair) = weights(script.models.lock().unwrap().last().unwrap());
		let n = lin.len();
		let mut idx: HashMap<usize, usize> = o.keys.iter().map(|k| (*k, 0)).collect();
		for (k, v) in &o.vals {
			if *v {
				return Err(format!("variable {} reads true from an all-false sample", k));
			}
		}
		let mut bit = 0;
		while n > 0 && (n - 1) >> bit != 0 {
			let p = run(&|n| (0..n).map(|i| i >> bit & 1 == 1).collect())?;
			if p.keys != o.keys {
				return Err("the set of variables changes between solutions".into());
			}
			for (k, v) in &p.vals {
				if *v {
					*idx.get_mut(k).unwrap() |= 1 << bit;
				}
			}
			bit += 1;
		}
		let vars: Vec<(usize, usize)> = {
			let mut v: Vec<_> = idx.into_iter().collect();
			v.sort();
			v
		};
		let mut used = BTreeSet::new();
		for (k, i) in &vars {
			if *i >= n {
				return Err(format!("variable {} has index {} of {}", k, i, n));
			}
			if !used.insert(*i) {
				return Err(format!("two variables share index {}", i));
			}
		}
		let listed: BTreeSet<usize> = qubits.iter().cloned().collect();
		if listed != o.keys || qubits.len() != o.keys.len() {
			return Err(format!("get_qubits lists {:?}, the solution has {:?}", qubits, o.keys));
		}
		// the energy of the all-false sample is the constant
		Ok(Qubo { n, c: o.energy.f(), lin, pair, vars })
	})
}

/// Is the minimum over the auxiliaries the value of the expression everywhere?
pub fn check_min(q: &Qubo, nvars: &[usize], tol: f64, want: &dyn Fn(&dyn Fn(usize) -> bool) -> f64) -> Result<u64, String> {
	let have: Vec<usize> = q.vars.iter().map(|v| v.0).collect();
	let m = nvars.len();
	let mut cnt = 0;
	for bits in 0u64..1 << m {
		let a = |l: usize| nvars.iter().position(|x| *x == l).map(|p| bits >> p & 1 == 1).unwrap_or(false);
		let got = q.min_at(&a)?;
		let w = want(&a);
		cnt += 1;
		if !((got - w).abs() <= tol * (1.0 + w.abs())) {
			let asg: Vec<String> = nvars.iter().map(|v| format!("x{}={}", v, a(*v) as u8)).collect();
			return Err(format!(
				"at {} the expression is {} but the minimum over the {} auxiliaries is {} (variables {:?})",
				asg.join(" "),
				w,
				q.n - q.vars.len(),
				got,
				have
			));
		}
	}
	Ok(cnt)
}
