//! C16, C22: the outer loop of SimpleSolver with scripted samples.
use crate::cap::*;
use crate::ex::X::*;
use crate::ex::*;
use crate::fw::*;
use rustqubo::solve::SimpleSolver;
use annealers::variable::Real;
use rustqubo::Expr;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

/// Node indices of the variables of a compiled model cannot be asked for
/// directly: they are read off from solutions of scripted samples.
fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
	let o = Opt { nv: 4, deg: if R::NAME == "f32" || R::NAME == "i32" { 2 } else { 3 }, depth: 4, con: true, pen: true, nl: 2, coef: 3, norm: 500.0, ..BASE };
	let mut x = tree(&mut c.rng, &o);
	if c.rng.bool() {
		x = add(x, Con(0, bx(tree(&mut c.rng, &Opt { con: false, pen: false, depth: 2, ..o }))));
	}
	if c.rng.below(3) == 0 {
		// a constraint that cannot be met
		x = add(x, Con(1, bx(add(Bin(0), Num(1)))));
	}
	run::<R>(c, &x)
}
fn run<R: Nm>(c: &mut Case, x: &X) -> Result<(), String> {
	let iterations = 1 + c.rng.us(3);
	let generations = 1 + c.rng.us(4);
	let samples = 1 + c.rng.us(4);
	let per = 1 + c.rng.us(3);
	let strength = 2 * c.rng.range(1, 10);
	let seed = c.rng.u64();
	let skew = c.rng.below(3);
	c.desc(format!(
		"{} strength {} iterations {} generations {} samples {}x{} seed {} over {}",
		x, strength, iterations, generations, samples, per, seed, R::NAME
	));
	let mut cons = Vec::new();
	x.cons(&mut cons);
	if cons.is_empty() {
		c.trivial();
	}
	let compiled = x.ex::<R, u8>().compile().feed_dict(HashMap::new());
	// index map
	let log: Arc<Mutex<Vec<(usize, Vec<Vec<bool>>)>>> = Default::default();
	let gen: Gen<R> = Gen::new(|_, n| vec![vec![false; n]]);
	let script = gen.0.clone();
	let mut s = SimpleSolver::with_solver(&compiled, gen);
	s.iterations = 1;
	s.generations = 1;
	s.samples = 1;
	let mut idx: HashMap<usize, usize> = s.get_qubits().into_iter().map(|q| (*q, 0)).collect();
	for bit in 0..7 {
		*script.next.lock().unwrap() = Box::new(move |_, n| vec![(0..n).map(|i| i >> bit & 1 == 1).collect()]);
		let (_, v, _) = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
		for (q, i) in idx.iter_mut() {
			if v.get(q).ok_or("a variable has no value")? {
				*i |= 1 << bit;
			}
		}
	}
	script.models.lock().unwrap().clear();
	s.iterations = iterations;
	s.generations = generations;
	s.samples = samples;
	s.coeff_strength = R::n(strength);
	{
		let log = log.clone();
		*script.next.lock().unwrap() = Box::new(move |k, n| {
			let mut r = Prng::new(seed ^ (k as u64).wrapping_mul(0x9E37));
			let v: Vec<Vec<bool>> = (0..per)
				.map(|_| {
					(0..n)
						.map(|_| match skew {
							0 => r.bool(),
							1 => r.below(4) == 0,
							_ => r.below(4) != 0,
						})
						.collect()
				})
				.collect();
			log.lock().unwrap().push((k, v.clone()));
			v
		});
	}
	let (energy, view, unsat) = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
	let models = script.models.lock().unwrap();
	let mut logv = log.lock().unwrap().clone();
	logv.sort();
	if models.len() % samples != 0 {
		return Err(format!("{} solvers were made for {} samples per generation", models.len(), samples));
	}
	let gens = models.len() / samples;
	let vs = x.varset();
	let have: BTreeSet<usize> = view.keys().cloned().collect();
	if have != idx.keys().cloned().collect() {
		return Err(format!("variables {:?}, the model has {:?}", have, idx.keys()));
	}
	if view.get(&9999).is_some() {
		return Err("an unknown variable has a value".into());
	}
	let got: Vec<(usize, bool)> = have.iter().map(|k| (*k, view.get(k).unwrap())).collect();
	for (k, v) in &got {
		if view[k] != *v {
			return Err("index and get differ".into());
		}
	}
	// expected behaviour, generation by generation
	struct Best {
		energy: f64,
		cand: Vec<Vec<bool>>,
	}
	let viol = |st: &[bool]| -> Vec<u8> {
		let a = |l: usize| idx.get(&l).map(|i| st[*i]).unwrap_or(false);
		let mut w: Vec<u8> = cons.iter().filter(|(_, e)| e.raw(&a, &|_| 0.0).abs() >= 1e-4).map(|c| c.0).collect();
		w.sort();
		w
	};
	let mut last: Option<(usize, Best)> = None;
	let mut g = 0;
	let mut done = false;
	'outer: for _ in 0..iterations {
		let mut old = f64::INFINITY;
		for _ in 0..generations {
			if g >= gens {
				return Err(format!("only {} generations were run (of {} x {}), the last without a satisfying best sample", gens, iterations, generations));
			}
			let (lin, pair) = weights(&models[g * samples]);
			let mut best = f64::INFINITY;
			let mut cand = Vec::new();
			for k in g * samples..(g + 1) * samples {
				for st in &logv[k].1 {
					let e = energy_of(&lin, &pair, st);
					if e < best {
						best = e;
						cand.clear();
					}
					if e == best {
						cand.push(st.clone());
					}
				}
			}
			g += 1;
			if old <= best {
				continue;
			}
			old = best;
			// several samples with the same energy: any of them may be chosen
			let sat: Vec<bool> = cand.iter().map(|s| viol(s).is_empty()).collect();
			last = Some((g - 1, Best { energy: best, cand: cand.clone() }));
			if sat.iter().all(|x| *x) || (sat.iter().any(|x| *x) && g == gens) {
				done = true;
				break 'outer;
			}
		}
	}
	if g != gens {
		return Err(format!(
			"{} generations were run, {} expected{}",
			gens,
			g,
			if done { " (a best sample satisfied all constraints)" } else { "" }
		));
	}
	c.ev(gens as u64);
	let (gi, best) = last.ok_or("harness: no best sample")?;
	let matches: Vec<&Vec<bool>> = best.cand.iter().filter(|st| got.iter().all(|(k, v)| st[idx[k]] == *v)).collect();
	if matches.is_empty() {
		return Err(format!("the assignment {:?} is not a best sample of generation {}: {:?}", got, gi, best.cand));
	}
	if view.energy().map(|v| v.f()) != Some(best.energy) {
		return Err(format!("the solution states the energy {:?}, its model gives {}", view.energy(), best.energy));
	}
	let mut labels: Vec<u8> = unsat.iter().map(|l| **l).collect();
	labels.sort();
	let want = viol(matches[0]);
	if labels != want {
		return Err(format!("labels {:?} were reported, the assignment {:?} violates {:?}", labels, got, want));
	}
	// constant: energy of the all-false assignment
	let mut ls = BTreeSet::new();
	x.labels(&mut ls);
	let _ = vs;
	// weights of that generation: replay the points
	let mut pts: HashMap<u8, usize> = ls.iter().map(|l| (*l, 10)).collect();
	let mut amb = false;
	{
		let start = gi / generations * generations;
		let mut old = f64::INFINITY;
		for h in start..gi {
			let (lin, pair) = weights(&models[h * samples]);
			let mut bestst: Option<(f64, Vec<Vec<u8>>)> = None;
			for k in h * samples..(h + 1) * samples {
				for st in &logv[k].1 {
					let e = energy_of(&lin, &pair, st);
					let v = viol(st);
					match &mut bestst {
						Some((b, vs)) if *b == e => vs.push(v),
						Some((b, _)) if *b < e => {}
						_ => bestst = Some((e, vec![v])),
					}
				}
			}
			let (e, vs) = bestst.unwrap();
			if old <= e {
				continue;
			}
			old = e;
			if vs.iter().any(|v| *v != vs[0]) {
				amb = true;
			}
			for l in &vs[0] {
				*pts.get_mut(l).unwrap() += 1;
			}
		}
	}
	if !amb {
		let size: usize = pts.values().sum();
		if R::INT && pts.values().any(|p| split(*p, size, strength)) {
			amb = true;
		}
		let w = |l: u8| {
			let f = pts[&l] as f64 / size as f64 * strength as f64;
			if R::INT { f.trunc() } else { f }
		};
		let a = |l: usize| idx.get(&l).map(|i| matches[0][*i]).unwrap_or(false);
		let mut anc0 = matches[0].clone();
		for i in idx.values() {
			anc0[*i] = false;
		}
		// with no auxiliaries the reported energy is the value of the expression
		let n = weights(&models[gi * samples]).0.len();
		if n == idx.len() && !amb {
			let want = x.val(&a, &|_| 0.0, &w);
			let tol = if R::NAME == "f32" { 1e-4 } else { 1e-9 };
			if (energy.f() - want).abs() > tol * (1.0 + want.abs()) {
				return Err(format!("energy {} was returned, the expression is {} at {:?} (weights {:?})", energy.f(), want, got, pts));
			}
		}
	}
	// local field of the returned solution (only labels are observable)
	let (lin, pair) = weights(&models[gi * samples]);
	if matches.len() == 1 {
		for (k, i) in &idx {
			let mut s2 = matches[0].clone();
			s2[*i] = !s2[*i];
			let d = energy_of(&lin, &pair, &s2) - best.energy;
			if let Some(f) = view.local_field(k) {
				if (f.f() - d).abs() > 1e-3 * (1.0 + d.abs()) {
					return Err(format!("local field of {} is {}, flipping it changes the energy by {}", k, f.f(), d));
				}
			}
		}
	}
	Ok(())
}
fn energy_of(lin: &[f64], pair: &[Vec<f64>], s: &[bool]) -> f64 {
	energy(lin, pair, s)
}
fn goq<R: Nm>(c: &mut Case) -> Result<(), String> {
	let o = Opt { nv: 4, deg: 2, depth: 3, coef: 3, norm: 200.0, ..BASE };
	let mut x = tree(&mut c.rng, &o);
	let k = c.rng.us(3);
	for l in 0..k {
		x = add(x, Con(l as u8, bx(tree(&mut c.rng, &Opt { depth: 2, ..o }))));
	}
	// the number of labels divides the strength: weights are exact at first;
	// afterwards floating sums are compared for equality, so only one generation
	run1::<R>(c, &x)
}
fn run1<R: Nm>(c: &mut Case, x: &X) -> Result<(), String> {
	run::<R>(c, x)
}
/// Only what is said about local fields (C14).
pub fn view_fields<R: Nm>(c: &mut Case) -> Result<(), String> {
	match go::<R>(c) {
		Err(e) if e.starts_with("local field of") => Err(e),
		_ => Ok(()),
	}
}
pub fn c16(t: &mut Ctx) {
	t.family("scripted samples (i64)", 12000, 240000, go::<i64>);
	t.family("scripted samples (i32)", 3200, 80000, go::<i32>);
	t.family("quadratic, scripted samples (i128)", 4000, 80000, goq::<i128>);
	t.family("constant: energy includes it (f64)", 3200, 80000, |c| {
		let o = Opt { nv: 4, deg: 2, depth: 4, coef: 5, norm: 1e3, ..BASE };
		let x = add(tree(&mut c.rng, &o), Num(c.rng.range(-9, 9)));
		c.desc(x.to_string());
		let k = c.rng.u64();
		with_model(x.ex::<f64, u8>(), &HashMap::new(), None, |run, _, _| {
			for r in 0..4 {
				let o = run(&|n| (0..n).map(|i| (k >> r) >> i & 1 == 1).collect())?;
				let m: HashMap<usize, bool> = o.vals.iter().cloned().collect();
				let want = x.val(&|l| m[&l], &|_| 0.0, &|_| 1.0);
				if o.energy != want {
					return Err(format!("energy {} instead of {} at {:?}", o.energy, want, o.vals));
				}
			}
			Ok(())
		})
	});
	// energies that differ by tiny amounts, all exact
	t.family("close energies (f64)", 2000, 40000, |c| {
		let n = 1 + c.rng.us(6);
		let unit = (2f64).powi(-(c.rng.us(25) as i32));
		let cf: Vec<f64> = (0..n).map(|_| c.rng.range(-3, 3) as f64 * unit).collect();
		let base = c.rng.range(-5, 5) as f64;
		let gens = 1 + c.rng.us(3);
		let per = 1 + c.rng.us(5);
		let samples: Vec<Vec<Vec<bool>>> = (0..gens).map(|_| (0..per).map(|_| (0..n).map(|_| c.rng.bool()).collect()).collect()).collect();
		c.desc(format!("{} + {:?} samples {:?}", base, cf, samples));
		let mut e: Ex<f64, u8> = Expr::Number(base);
		for (i, v) in cf.iter().enumerate() {
			e = Expr::Add(bx(e), bx(Expr::Mul(bx(Expr::Number(*v)), bx(Expr::Binary(i)))));
		}
		// labels keep the solver going when it could stop
		e = Expr::Add(bx(e), bx(Expr::Constraint { label: 0, expr: bx(Expr::Mul(bx(Expr::Number(0.0)), bx(Expr::Binary(0)))) }));
		let compiled = e.compile().feed_dict(HashMap::new());
		let sm = samples.clone();
		let gen: Gen<f64> = Gen::new(move |k, _| sm[k].clone());
		let mut s = SimpleSolver::with_solver(&compiled, gen);
		s.iterations = 1;
		s.generations = gens;
		s.samples = 1;
		let (energy, view, _) = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
		let val = |st: &[bool]| cf.iter().zip(st).map(|(v, b)| if *b { *v } else { 0.0 }).sum::<f64>();
		// nothing is violated: the best sample of the first generation is returned
		let best = samples[0].iter().map(|st| val(st)).fold(f64::INFINITY, f64::min);
		let got: Vec<bool> = (0..n).map(|i| view.get(&i).unwrap_or(false)).collect();
		if val(&got) != best || !samples[0].contains(&got) || energy != base + best {
			return Err(format!("{:?} with energy {} was returned, the best sample has {}", got, energy, base + best));
		}
		Ok(())
	});
	// energies that an f64 cannot tell apart, all exact in the coefficient type
	fn large<R: Real + std::fmt::Debug + From<i32>>(c: &mut Case, top: u32, i: fn(R) -> i128) -> Result<(), String> {
		let n = 2 + c.rng.us(5);
		let mut x: Vec<i128> = (0..n).map(|_| c.rng.range(-3, 3) as i128).collect();
		x[0] = (if c.rng.bool() { 1i128 } else { -1 }) << (top - c.rng.us(10) as u32);
		let samples: Vec<Vec<bool>> = (0..1 + c.rng.us(5)).map(|_| (0..n).map(|k| if k == 0 { c.rng.below(5) != 0 } else { c.rng.bool() }).collect()).collect();
		c.desc(format!("{:?} samples {:?}", x, samples));
		let mut e: Ex<R, ()> = Expr::Number(R::from_i32(0));
		for (k, v) in x.iter().enumerate() {
			let mut f = Expr::Binary(k);
			let mut v = *v;
			while v % 2 == 0 && v != 0 {
				v /= 2;
				f = Expr::Mul(bx(Expr::Number(R::from_i32(2))), bx(f));
			}
			e = Expr::Add(bx(e), bx(Expr::Mul(bx(Expr::Number(R::from_i32(v as i32))), bx(f))));
		}
		let compiled = e.compile().feed_dict(HashMap::new());
		let sm = samples.clone();
		let gen: Gen<R> = Gen::new(move |_, _| sm.clone());
		let mut s = SimpleSolver::with_solver(&compiled, gen);
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		let (energy, view) = s.solve().map_err(|e| format!("{:?}", e))?;
		let val = |st: &[bool]| x.iter().zip(st).map(|(v, b)| if *b { *v } else { 0 }).sum::<i128>();
		let best = samples.iter().map(|st| val(st)).min().unwrap();
		let got: Vec<bool> = (0..n).map(|k| view.get(&k).unwrap_or(false)).collect();
		if val(&got) != best || !samples.contains(&got) || i(energy) != best {
			return Err(format!("{:?} with energy {:?} was returned, the best sample has {}", got, energy, best));
		}
		Ok(())
	}
	t.family("large weights (i64)", 800, 16000, |c| large::<i64>(c, 61, |v| v as i128));
	t.family("large weights (i128)", 400, 8000, |c| large::<i128>(c, 120, |v| v));
	t.family("built-in annealer (f64)", 480, 6000, |c| {
		let o = Opt { nv: 4, deg: 2, depth: 4, coef: 3, norm: 1e3, ..BASE };
		let x = tree(&mut c.rng, &o);
		c.desc(x.to_string());
		let e: Ex<f64, ()> = x.ex();
		let compiled = e.compile().feed_dict(HashMap::new());
		let mut s = SimpleSolver::new(&compiled);
		s.iterations = 1;
		s.generations = 2;
		s.samples = 2;
		let (e, v) = s.solve().map_err(|e| format!("{:?}", e))?;
		let want = x.val(&|l| v.get(&l).unwrap(), &|_| 0.0, &|_| 1.0);
		if (e - want).abs() > 1e-6 {
			return Err(format!("energy {} instead of {}", e, want));
		}
		Ok(())
	});
}

pub fn c22(t: &mut Ctx) {
	// label l has `mult` constraints on a variable of its own: (x_l - target)
	fn go<R: Nm>(c: &mut Case) -> Result<(), String> {
		let nl = 1 + c.rng.us(5);
		let iterations = 1 + c.rng.us(3);
		let generations = 1 + c.rng.us(8);
		let samples = 1 + c.rng.us(2);
		let strength = c.rng.range(1, 2000);
		let seed = c.rng.u64();
		// constraint of label l: x_l (met when false), `mult[l]` copies; variables
		// n+l steer the energy.
		let mult: Vec<usize> = (0..nl).map(|_| 1 + c.rng.us(2)).collect();
		let steer = 4;
		c.desc(format!(
			"{} labels with {:?} constraints, strength {}, {} iterations, {} generations, {} samples, seed {} over {}",
			nl, mult, strength, iterations, generations, samples, seed, R::NAME
		));
		let mut x = Num(0);
		for l in 0..nl {
			for _ in 0..mult[l] {
				x = add(x, Con(l as u8, bx(Bin(l))));
			}
		}
		for k in 0..steer {
			x = add(x, mul(Num(-(3000 << k)), Bin(100 + k)));
		}
		let compiled = x.ex::<R, u8>().compile().feed_dict(HashMap::new());
		let gen: Gen<R> = Gen::new(|_, n| vec![vec![false; n]]);
		let script = gen.0.clone();
		let mut s = SimpleSolver::with_solver(&compiled, gen);
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		let mut idx: HashMap<usize, usize> = s.get_qubits().into_iter().map(|q| (*q, 0)).collect();
		for bit in 0..6 {
			*script.next.lock().unwrap() = Box::new(move |_, n| vec![(0..n).map(|i| i >> bit & 1 == 1).collect()]);
			let (_, v, _) = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
			for (q, i) in idx.iter_mut() {
				if v.get(q).unwrap() {
					*i |= 1 << bit;
				}
			}
		}
		script.models.lock().unwrap().clear();
		s.iterations = iterations;
		s.generations = generations;
		s.samples = samples;
		s.coeff_strength = R::n(strength);
		// every sample violates label 0 at least, so that the run goes on; the
		// steering variables decide whether a generation improves
		let per_gen = samples;
		let ix: Vec<usize> = (0..nl).map(|l| idx[&l]).collect();
		let sx: Vec<usize> = (0..steer).map(|k| idx[&(100 + k)]).collect();
		let sample = move |k: usize, n: usize| -> Vec<bool> {
			let g = k / per_gen;
			let mut r = Prng::new(seed ^ (g as u64).wrapping_mul(0x51ED));
			let mut st = vec![false; n];
			let mask = r.u64() | 1;
			let en = r.u64();
			for (l, i) in ix.iter().enumerate() {
				st[*i] = mask >> l & 1 == 1;
			}
			for (q, i) in sx.iter().enumerate() {
				st[*i] = en >> q & 1 == 1;
			}
			st
		};
		let sample2 = sample.clone();
		*script.next.lock().unwrap() = Box::new(move |k, n| vec![sample(k, n)]);
		let _ = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
		let models = script.models.lock().unwrap();
		if models.len() != iterations * generations * samples {
			return Err(format!("{} models were made instead of {}", models.len(), iterations * generations * samples));
		}
		let mut g = 0;
		for it in 0..iterations {
			let mut pts = vec![10usize; nl];
			let mut old = f64::INFINITY;
			for ge in 0..generations {
				let size: usize = pts.iter().sum();
				for q in 0..samples {
					let (lin, pair) = weights(&models[g * samples + q]);
					for l in 0..nl {
						let got = lin[idx[&l]];
						if R::INT && split(pts[l], size, strength) {
							continue;
						}
						let one = R::from_f64(pts[l] as f64 / size as f64 * strength as f64).f();
						let want = one * mult[l] as f64;
						c.ev(1);
						if (got - want).abs() > 1e-5 * (1.0 + want.abs()) {
							return Err(format!("iteration {} generation {}: the {} constraints of label {} weigh {} together instead of {} (points {:?})", it, ge, mult[l], l, got, want, pts));
						}
					}
				}
				let (lin, pair) = weights(&models[g * samples]);
				let st = sample2(g * samples, lin.len());
				let e = energy(&lin, &pair, &st);
				// a tie up to rounding: the code may see it either way
				if R::NAME.starts_with('f') && (e - old).abs() <= 1e-4 * (1.0 + e.abs()) {
					return Ok(());
				}
				if e < old {
					old = e;
					for l in 0..nl {
						if st[idx[&l]] {
							pts[l] += mult[l];
						}
					}
				}
				g += 1;
			}
		}
		Ok(())
	}
	t.family("weights by generation (f64)", 9600, 200000, go::<f64>);
	t.family("weights by generation (i64)", 6400, 120000, go::<i64>);
	t.family("weights by generation (i32)", 3200, 80000, go::<i32>);
	t.family("weights by generation (f32)", 2400, 40000, go::<f32>);
	// auxiliaries bring constraints without a label: they earn no points
	t.family("violated auxiliaries (f64)", 1200, 24000, |c| {
		let nl = 1 + c.rng.us(3);
		let gens = 1 + c.rng.us(5);
		let seed = c.rng.u64();
		let strength = c.rng.range(1, 60) as f64;
		c.desc(format!("{} labels, {} generations, strength {}, seed {}", nl, gens, strength, seed));
		// (p - 2) b100 b101 b102 has no known sign
		let mut x = mul(add(Ph(0), Num(-2)), mul(Bin(100), mul(Bin(101), Bin(102))));
		for l in 0..nl {
			x = add(x, Con(l as u8, bx(Bin(l))));
		}
		// samples get better and better whatever the rest says
		for k in 0..4 {
			x = add(x, mul(Num(-(10000 << k)), Bin(200 + k)));
		}
		let compiled = x.ex::<f64, u8>().compile().feed_dict([(0u8, 3.0)].into_iter().collect());
		let gen: Gen<f64> = Gen::new(|_, n| vec![vec![false; n]]);
		let script = gen.0.clone();
		let mut s = SimpleSolver::with_solver(&compiled, gen);
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		let mut idx: HashMap<usize, usize> = s.get_qubits().into_iter().map(|q| (*q, 0)).collect();
		for bit in 0..6 {
			*script.next.lock().unwrap() = Box::new(move |_, n| vec![(0..n).map(|i| i >> bit & 1 == 1).collect()]);
			let (_, v, _) = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
			for (q, i) in idx.iter_mut() {
				if v.get(q).unwrap() {
					*i |= 1 << bit;
				}
			}
		}
		script.models.lock().unwrap().clear();
		s.generations = gens;
		s.coeff_strength = strength;
		let ix: Vec<usize> = (0..nl).map(|l| idx[&l]).collect();
		let sx: Vec<usize> = (0..4).map(|k| idx[&(200 + k)]).collect();
		let sample = move |k: usize, n: usize| -> Vec<bool> {
			let mut r = Prng::new(seed ^ (k as u64).wrapping_mul(0x51ED));
			let mut st: Vec<bool> = (0..n).map(|_| r.bool()).collect();
			for (q, i) in sx.iter().enumerate() {
				st[*i] = (k + 1) >> q & 1 == 1;
			}
			st[ix[0]] = true;
			st
		};
		let sample2 = sample.clone();
		*script.next.lock().unwrap() = Box::new(move |k, n| vec![sample(k, n)]);
		let _ = s.solve_with_constraints().map_err(|e| format!("{:?}", e))?;
		let models = script.models.lock().unwrap();
		if models.len() != gens {
			return Err(format!("{} models were made instead of {}", models.len(), gens));
		}
		let mut pts = vec![10usize; nl];
		for g in 0..gens {
			let size: usize = pts.iter().sum();
			let (lin, _) = weights(&models[g]);
			for l in 0..nl {
				let want = pts[l] as f64 / size as f64 * strength;
				c.ev(1);
				if (lin[idx[&l]] - want).abs() > 1e-9 * (1.0 + want) {
					return Err(format!("generation {}: label {} weighs {} instead of {} (points {:?})", g, l, lin[idx[&l]], want, pts));
				}
			}
			let st = sample2(g, lin.len());
			for l in 0..nl {
				if st[idx[&l]] {
					pts[l] += 1;
				}
			}
		}
		Ok(())
	});
	t.family("two labels, first generation (i32)", 1600, 8000, |c| {
		let strength = c.idx as i64 + 1;
		c.desc(format!("two labels, strength {}", strength));
		let e: Ex<i32, u8> = Expr::Add(
			bx(Expr::Constraint { label: 0, expr: bx(Expr::Binary(0)) }),
			bx(Expr::Constraint { label: 1, expr: bx(Expr::Binary(1)) }),
		);
		let q = capture::<i32, u8>(e, &HashMap::new(), Some(strength as i32))?;
		let want = (10f64 / 20f64 * strength as f64) as i32 as f64;
		if q.lin != vec![want, want] {
			return Err(format!("weights {:?} instead of {}", q.lin, want));
		}
		Ok(())
	});
}

/// The share is an integer in exact arithmetic but the order in which it is
/// computed decides on which side of it rounding ends: either result is fine.
fn split(p: usize, size: usize, strength: i64) -> bool {
	let (p, n, s) = (p as f64, size as f64, strength as f64);
	let a = (p / n * s).trunc();
	a != (p * s / n).trunc() || a != (s / n * p).trunc()
}
