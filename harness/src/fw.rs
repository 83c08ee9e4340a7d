//! Case runner: deterministic cases (family, index, seed), panics are caught,
//! results are written as JSON.
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Prng(u64);
impl Prng {
	pub fn new(s: u64) -> Self {
		Prng(s)
	}
	pub fn u64(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n
	pub fn below(&mut self, n: u64) -> u64 {
		self.u64() % n
	}
	pub fn us(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	/// inclusive
	pub fn range(&mut self, a: i64, b: i64) -> i64 {
		a + self.below((b - a + 1) as u64) as i64
	}
	pub fn bool(&mut self) -> bool {
		self.u64() & 1 == 1
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.us(v.len())]
	}
}

pub struct Case {
	pub idx: u64,
	pub rng: Prng,
	pub thorough: bool,
	desc: RefCell<String>,
	evals: u64,
	nontrivial: bool,
}
impl Case {
	pub fn desc(&self, s: String) {
		*self.desc.borrow_mut() = s;
	}
	pub fn ev(&mut self, n: u64) {
		self.evals += n;
	}
	/// mark the case as trivial (not counted as distinct non-trivial)
	pub fn trivial(&mut self) {
		self.nontrivial = false;
	}
}

pub struct Viol {
	pub family: String,
	pub idx: u64,
	pub desc: String,
	pub msg: String,
}

pub struct Ctx {
	pub prop: String,
	pub seed: u64,
	pub thorough: bool,
	pub deadline: Instant,
	pub only: Option<(String, u64)>,
	pub repeat: u64,
	pub cur_dir: Option<String>,
	pub evals: u64,
	pub cases: u64,
	pub truncated: bool,
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
	pub families: Vec<(String, u64)>,
	pub viol: Option<Viol>,
	pub threads: usize,
}

thread_local! {
	pub static QUIET: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let s = format!("{}", info);
		QUIET.with(|q| *q.borrow_mut() = s);
	}));
}

/// Does `f` panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
	catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn h64(x: &impl Hash) -> u64 {
	let mut h = DefaultHasher::new();
	x.hash(&mut h);
	h.finish()
}

impl Ctx {
	pub fn family<F>(&mut self, name: &str, nq: u64, nt: u64, f: F)
	where
		F: Fn(&mut Case) -> Result<(), String> + Sync,
	{
		if self.viol.is_some() {
			return;
		}
		let (lo, hi, rep) = match &self.only {
			Some((fam, i)) => {
				if fam != name {
					return;
				}
				(*i, *i + 1, self.repeat)
			}
			None => (0, if self.thorough { nt } else { nq }, 1),
		};
		let next = AtomicU64::new(lo);
		let stop = AtomicBool::new(false);
		let viol: Mutex<Option<Viol>> = Mutex::new(None);
		let acc: Mutex<(u64, u64, HashSet<u64>, Vec<String>, bool)> =
			Mutex::new((0, 0, HashSet::new(), Vec::new(), false));
		let this = &*self;
		std::thread::scope(|s| {
			for w in 0..this.threads {
				let (next, stop, viol, acc, f) = (&next, &stop, &viol, &acc, &f);
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, move || {
						let mut l = (0u64, 0u64, HashSet::new(), Vec::new(), false);
						loop {
							if stop.load(Ordering::Relaxed) {
								break;
							}
							if this.only.is_none() && Instant::now() > this.deadline {
								if next.load(Ordering::Relaxed) < hi {
									l.4 = true;
								}
								break;
							}
							let idx = next.fetch_add(1, Ordering::Relaxed);
							if idx >= hi {
								break;
							}
							if let Some(d) = &this.cur_dir {
								let _ = std::fs::write(
									format!("{}/cur.{}", d, w),
									format!("{} {}", name, idx),
								);
							}
							for _ in 0..rep {
								let mut c = Case {
									idx,
									rng: Prng::new(h64(&(this.seed, name, idx))),
									thorough: this.thorough,
									desc: RefCell::new(String::new()),
									evals: 0,
									nontrivial: true,
								};
								QUIET.with(|q| q.borrow_mut().clear());
								let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
								l.0 += c.evals.max(1);
								l.1 += 1;
								let d = c.desc.borrow().clone();
								if c.nontrivial {
									l.2.insert(h64(&(name, &d)));
								}
								if l.3.len() < 1 && c.nontrivial && !d.is_empty() {
									l.3.push(format!("{}#{}: {}", name, idx, d));
								}
								let e = match r {
									Ok(Ok(())) => None,
									Ok(Err(e)) => Some(e),
									Err(p) => {
										let m = if let Some(s) = p.downcast_ref::<String>() {
											s.clone()
										} else if let Some(s) = p.downcast_ref::<&str>() {
											s.to_string()
										} else {
											"?".into()
										};
										Some(format!(
											"panicked: {} [{}]",
											m,
											QUIET.with(|q| q.borrow().clone())
										))
									}
								};
								if let Some(msg) = e {
									let mut v = viol.lock().unwrap();
									// keep the shortest description seen
									let better = match &*v {
										None => true,
										Some(o) => d.len() < o.desc.len(),
									};
									if better {
										*v = Some(Viol { family: name.into(), idx, desc: d, msg });
									}
									stop.store(true, Ordering::Relaxed);
									break;
								}
							}
						}
						if let Some(d) = &this.cur_dir {
							let _ = std::fs::remove_file(format!("{}/cur.{}", d, w));
						}
						let mut a = acc.lock().unwrap();
						a.0 += l.0;
						a.1 += l.1;
						a.2.extend(l.2);
						a.3.extend(l.3);
						a.4 |= l.4;
					})
					.unwrap();
			}
		});
		let a = acc.into_inner().unwrap();
		self.evals += a.0;
		self.cases += a.1;
		self.distinct.extend(a.2);
		self.samples.extend(a.3.into_iter().take(2));
		self.truncated |= a.4;
		self.families.push((name.to_string(), a.1));
		self.viol = viol.into_inner().unwrap();
	}
}

pub fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub fn budget(secs: f64) -> Instant {
	Instant::now() + Duration::from_secs_f64(secs)
}
