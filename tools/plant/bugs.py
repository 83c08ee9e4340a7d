BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01, C02, C03
bug("C01-a", "C01", [("src/compiled.rs", """					.filter_map(|(k, v)| if v.get() == max_count { Some(k) } else { None })
""", """					// prefer a larger set that occurs almost as often
					.filter_map(|(k, v)| if v.get() + 1 >= max_count { Some(k) } else { None })
""")],
    "at least three variables shared by two terms of one sign and one term of the other sign",
    "the reduction for one sign is applied to a term of the other sign",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), i32>::Binary(i);
	let t = |c, x| b(0) * b(1) * b(2) * b(x) * Expr::Number(c);
	let e = t(2, 3) + t(3, 4) + t(-5, 5);
	let v = view!(e.compile(), i32);
	for k in 0..64usize {
		let a = (0..6).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = if k & 7 == 7 { (2 * (k >> 3 & 1) + 3 * (k >> 4 & 1)) as f64 - 5.0 * (k >> 5) as f64 } else { 0.0 };
		assert!(near(v.min(&a), want), "{} {} {}", k, v.min(&a), want);
	}
}
""")
bug("C01-b", "C01", [("src/expanded.rs", """		let it = self.0.iter().flat_map(|(k1, v1)| {
""", """		if other.0.len() == 1 {
			// a single term: no products to be summed up
			let (k2, v2) = other.0.into_iter().next().unwrap();
			self.0 = self
				.0
				.drain()
				.map(|(k1, v1)| {
					(
						k1.union(&k2).cloned().collect(),
						StaticExpr::Mul(vec![v1, v2.clone()]).simplify(),
					)
				})
				.collect();
			return;
		}
		let it = self.0.iter().flat_map(|(k1, v1)| {
""")],
    "a sum that contains a term x and a term xy, multiplied by the single variable y",
    "terms that become the same monomial replace each other instead of adding up",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), i32>::Binary(i);
	let e = (b(0) * Expr::Number(2) + b(0) * b(1) * Expr::Number(3)) * b(1);
	let v = view!(e.compile(), i32);
	for k in 0..4usize {
		let a = (0..2).map(|i| (i, k >> i & 1 == 1)).collect();
		assert!(near(v.min(&a), if k == 3 { 5.0 } else { 0.0 }), "{} {}", k, v.min(&a));
	}
}
""")
bug("C02-a", "C02", [("src/compiled.rs", """		let mut builder = self.builder.clone();
		while self.expanded.get_order() > max_order {
""", """		while self.expanded.get_order() > max_order {
			let mut builder = self.builder.clone();
"""), ("src/compiled.rs", """		self.builder = builder;
		self
""", """		self
""")],
    "an expression that needs more than one replacement",
    "every replacement numbers its auxiliaries from zero again, so different ones share a variable",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), i32>::Binary(i);
	let e = b(0) * b(1) * b(2) * Expr::Number(-1) + b(3) * b(4) * b(5) * Expr::Number(-1);
	let v = view!(e.compile(), i32);
	assert_eq!(v.at.len(), 6);
	for k in 0..64usize {
		let a = (0..6).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = -(if k & 7 == 7 { 1.0 } else { 0.0 }) - (if k >> 3 == 7 { 1.0 } else { 0.0 });
		assert!(near(v.min(&a), want), "{} {} {}", k, v.min(&a), want);
	}
}
""")
bug("C02-b", "C02", [("src/expanded.rs", """				self.0.insert(k, StaticExpr::Add(vec![e, v]).simplify());
			} else {
				self.0.insert(k, v);
""", """				match StaticExpr::Add(vec![e, v]).simplify() {
					// nothing is left of this term
					StaticExpr::Number(n) if n.as_f64() == 0.0 => (),
					sum => {
						self.0.insert(k, sum);
					}
				}
			} else {
				self.0.insert(k, v);
""")],
    "an expression in which all terms of one variable cancel out",
    "the variable disappears from the compiled model and cannot be read back from a solution",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), i32>::Binary(i);
	let e = b(0) - b(1) + b(1) * Expr::Number(2) - b(1);
	let v = view!(e.compile(), i32);
	assert_eq!(v.at.keys().cloned().collect::<Vec<_>>(), vec![0, 1]);
}
""")
bug("C03-a", "C03", [("src/compiled.rs", "StaticExpr::Number(R::from_i32(4 * (i as i32 + 1) - 1))", "StaticExpr::Number(R::from_i32(2 * (i as i32 + 1) + 1))")],
    "a product of at least seven variables, an odd number of them, with a positive coefficient",
    "the linear weight of the second and later auxiliaries of an odd product is wrong",
    """
use rustqubo::Expr;
fn main() {
	for d in [3usize, 5, 7] {
		let mut e: Expr<(), usize, (), i32> = Expr::Number(3);
		for i in 0..d {
			e = e * Expr::Binary(i);
		}
		let v = view!(e.compile(), i32);
		assert_eq!(v.n, d + (d - 1) / 2);
		for k in 0..1usize << d {
			let a = (0..d).map(|i| (i, k >> i & 1 == 1)).collect();
			let want = if k + 1 == 1 << d { 3.0 } else { 0.0 };
			assert!(near(v.min(&a), want), "{} {} {}", d, k, v.min(&a));
		}
	}
}
""")
bug("C03-b", "C03", [("src/compiled.rs", "						for j in 0..d {\n							exp.insert(\n								vec![wn.clone(), xs[j].clone()]", "						for j in 0..d.min(5) {\n							exp.insert(\n								vec![wn.clone(), xs[j].clone()]")],
    "a product of at least seven variables, an odd number of them, with a positive coefficient",
    "the last auxiliary of a long odd product is not coupled to all variables",
    """
use rustqubo::Expr;
fn main() {
	let d = 7usize;
	let mut e: Expr<(), usize, (), i32> = Expr::Number(1);
	for i in 0..d {
		e = e * Expr::Binary(i);
	}
	let v = view!(e.compile(), i32);
	for k in 0..1usize << d {
		let a = (0..d).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = if k + 1 == 1 << d { 1.0 } else { 0.0 };
		assert!(near(v.min(&a), want), "{} {}", k, v.min(&a));
	}
}
""")
# ---------------------------------------------------------------- C04, C05, C06
bug("C04-a", "C04", [("src/expr.rs", """				if let Some(val) = val {
					v.push(Self::Number(val));
				}
""", """				if let Some(val) = val {
					// a zero does not contribute
					if val.as_f64() != 0.0 || v.is_empty() {
						v.push(Self::Number(val));
					}
				}
""")],
    "a coefficient in which a placeholder is multiplied by zero",
    "0 * p is simplified to p",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<u8, usize, (), i32> = Expr::Placeholder(0) * Expr::Number(0) * Expr::Binary(0) + Expr::Binary(0) * Expr::Number(2);
	let v = view!(e.compile().feed_dict([(0u8, 5)].into_iter().collect()), i32);
	for b in [false, true] {
		let got = v.min(&[(0, b)].into_iter().collect());
		assert!(near(got, if b { 2.0 } else { 0.0 }), "{}", got);
	}
}
""")
bug("C04-b", "C04", [("src/expr.rs", """			Self::Mul(v) => v.into_iter().flat_map(Self::expand_mul).collect(),
			o => vec![o],
""", """			Self::Mul(v) => v.into_iter().flat_map(Self::expand_mul).collect(),
			// p + p is 2 * p
			Self::Add(mut v) if v.len() > 1 && v.iter().all(|e| *e == v[0]) => {
				vec![Self::Number(R::from_i32(2)), v.pop().unwrap()]
			}
			o => vec![o],
""")],
    "a coefficient p + p + p that is multiplied afterwards",
    "a sum of three equal placeholders is taken as their double",
    """
use rustqubo::Expr;
fn main() {
	let p = || Expr::<u8, usize, (), i32>::Placeholder(0);
	let b = |i| Expr::<u8, usize, (), i32>::Binary(i);
	let e = (p() * b(0) + p() * b(0) + p() * b(0)) * b(1);
	let v = view!(e.compile().feed_dict([(0u8, 5)].into_iter().collect()), i32);
	let got = v.min(&[(0, true), (1, true)].into_iter().collect());
	assert!(near(got, 15.0), "{}", got);
}
""")
bug("C05-a", "C05", [("src/expr.rs", """						if let Some(bb) = ret {
							b = b == bb;
						}
""", """						if let Some(bb) = ret {
							b = b && bb;
						}
""")],
    "a term of at least three variables whose coefficient is a product of two negative symbolic sums",
    "negative times negative is taken as negative, so the wrong reduction is used",
    """
use rustqubo::Expr;
fn main() {
	let p = |i| Expr::<u8, usize, (), i32>::Placeholder(i);
	let neg = |i, j| (p(i) + p(j)) * Expr::Number(-1);
	let b = |i| Expr::<u8, usize, (), i32>::Binary(i);
	let n = |i, j, x: usize| p(i) * Expr::Number(-1) * b(x) + p(j) * Expr::Number(-1) * b(x);
	let _ = neg;
	let e = n(0, 1, 0) * n(2, 3, 1) * b(2);
	let v = view!(e.compile().feed_dict((0u8..4).map(|i| (i, 1 + i as i32)).collect()), i32);
	for k in 0..8usize {
		let a = (0..3).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = if k == 7 { 3.0 * 7.0 } else { 0.0 };
		assert!(near(v.min(&a), want), "{} {} {}", k, v.min(&a), want);
	}
}
""")
bug("C05-b", "C05", [("src/expr.rs", """							if b != bb {
								return None;
							}
""", """							// the last summand decides
							if b != bb {
								ret = Some(b);
							}
""")],
    "a term of at least three variables whose coefficient is a sum of a positive and a negative part, fed with a value that turns its sign",
    "the sign of a mixed symbolic sum is taken as known",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<u8, usize, (), i32> = (Expr::Placeholder(0) - Expr::Number(2)) * Expr::Binary(0) * Expr::Binary(1) * Expr::Binary(2);
	for val in 0..6 {
		let v = view!(e.clone().compile().feed_dict([(0u8, val)].into_iter().collect()), i32);
		for k in 0..8usize {
			let a = (0..3).map(|i| (i, k >> i & 1 == 1)).collect();
			let want = if k == 7 { (val - 2) as f64 } else { 0.0 };
			assert!(near(v.min(&a), want), "{} {} {} {}", val, k, v.min(&a), want);
		}
	}
}
""")
bug("C06-a", "C06", [("src/expr.rs", """			Self::Mul(v) => Self::Mul(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			o => o,
""", """			Self::Mul(v) if !v.iter().any(|e| if let Self::Placeholder(_) = e { true } else { false }) => {
				// no placeholder among the factors
				Self::Mul(v)
			}
			Self::Mul(v) => Self::Mul(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			o => o,
""")],
    "a coefficient that is a product of sums of placeholders only",
    "placeholders deeper inside of such a product are not fed, and the model is rejected as unfed",
    """
use rustqubo::Expr;
fn main() {
	let p = |i| Expr::<u8, usize, (), i32>::Placeholder(i);
	let b = |i| Expr::<u8, usize, (), i32>::Binary(i);
	let n = |i, j, x: usize| p(i) * b(x) + p(j) * b(x);
	let e = n(0, 1, 0) * n(2, 3, 1);
	let v = view!(e.compile().feed_dict((0u8..4).map(|i| (i, 1 + i as i32)).collect()), i32);
	let a = (0..2).map(|i| (i, true)).collect();
	assert!(near(v.min(&a), 21.0));
}
""")
bug("C06-b", "C06", [("src/model.rs", """		self.expr = self.expr.feed_dict(dict);
		if let Some(p) = &self.placeholder {
""", """		if let Some(p) = &self.placeholder {
"""), ("src/model.rs", """			if let Some(_) = dict.get(p) {
				self.placeholder = None;
			}
		}
		self
""", """			if let Some(_) = dict.get(p) {
				self.placeholder = None;
				self.expr = self.expr.feed_dict(dict);
			}
		}
		self
""")],
    "a labelled constraint whose expression contains a placeholder",
    "the expression that is kept for checking is not fed",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<u8, usize, &str, i32> = Expr::Constraint {
		label: "c",
		expr: Box::new(Expr::Binary(0) * Expr::Placeholder(0) - Expr::Number(3)),
	};
	let c = e.compile().feed_dict([(0u8, 3)].into_iter().collect());
	for b in [false, true] {
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&c, Gen::<i32>::new(move |_, n| vec![vec![b; n]]));
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		assert_eq!(s.solve_with_constraints().unwrap().2.len(), if b { 0 } else { 1 });
	}
}
""")
# ---------------------------------------------------------------- C07 .. C10
bug("C07-a", "C07", [("src/expr.rs", """		if other > 0 {
			for _ in 1..other {
				hmlt = hmlt * self.clone();
			}
			hmlt = hmlt * self;
		}
		hmlt
""", """		// halve the exponent while it pays off
		let (mut base, mut n) = (self, other);
		while n > 3 {
			base = base.clone() * base;
			if n % 2 == 1 {
				hmlt = hmlt * base.clone();
			}
			n = n / 2;
		}
		for _ in 0..n {
			hmlt = hmlt * base.clone();
		}
		hmlt
""")],
    "an odd exponent of at least five",
    "x ^ 5 becomes the sixth power",
    """
use rustqubo::Expr;
fn main() {
	for k in 0..10usize {
		let e: Expr<(), usize, (), i64> = Expr::Number(2i64) ^ k;
		assert!(near(view!(e.compile(), i64).c, 2f64.powi(k as i32)), "{}", k);
	}
}
""")
bug("C07-b", "C07", [("src/expr.rs", """	fn neg(self) -> Self::Output {
		Self::Mul(Box::new(Expr::Number(R::from_i32(-1))), Box::new(self))
	}
""", """	fn neg(self) -> Self::Output {
		match self {
			Self::Number(n) => Self::Number(-n),
			Self::Add(a, b) => Self::Add(Box::new(-*a), Box::new(-*b)),
			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
				expr: Box::new(-*expr),
				penalty: Box::new(-*penalty),
			},
			o => Self::Mul(Box::new(Expr::Number(R::from_i32(-1))), Box::new(o)),
		}
	}
""")],
    "the negation of an expression with a penalty",
    "the penalty is negated as well, although it enters the energy unscaled",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<(), usize, (), i32> = -Expr::WithPenalty {
		expr: Box::new(Expr::Binary(0)),
		penalty: Box::new(Expr::Binary(1) * Expr::Number(3)),
	};
	let v = view!(e.compile(), i32);
	for k in 0..4usize {
		let a = (0..2).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = -((k & 1) as f64) + 3.0 * (k >> 1) as f64;
		assert!(near(v.min(&a), want), "{} {}", k, v.min(&a));
	}
}
""")
bug("C07-c", "C07", [("src/expr.rs", """			#[inline]
			fn sub(self, other: $rhs) -> Self::Output {
				Expr::Add(
					Box::new(self.into()),
					Box::new(Expr::Mul(
						Box::new(Expr::Number(<$real>::from_i32(-1))),
						Box::new(other.into()),
					)),
				)
			}
""", """			#[inline]
			fn sub(self, other: $rhs) -> Self::Output {
				let (lhs, rhs): (Self::Output, Self::Output) = (self.into(), other.into());
				match (lhs, rhs) {
					(Expr::Number(a), Expr::Number(b)) => Expr::Number(a - b),
					// a number is moved to the left
					(e, Expr::Number(n)) => Expr::Add(Box::new(Expr::Number(-n)), Box::new(e)),
					(Expr::Number(n), e) => Expr::Add(Box::new(Expr::Number(-n)), Box::new(e)),
					(lhs, rhs) => Expr::Add(
						Box::new(lhs),
						Box::new(Expr::Mul(
							Box::new(Expr::Number(<$real>::from_i32(-1))),
							Box::new(rhs),
						)),
					),
				}
			}
""")],
    "a number minus an expression",
    "n - e becomes e - n",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<(), usize, (), i32> = 3i32 - Expr::Binary(0);
	let v = view!(e.compile(), i32);
	assert!(near(v.min(&[(0, false)].into_iter().collect()), 3.0));
	assert!(near(v.min(&[(0, true)].into_iter().collect()), 2.0));
}
""")
bug("C08-a", "C08", [("src/model.rs", """		self.penalties += other.penalties + other.expanded;
""", """		self.penalties += other.expanded;
""")],
    "an expression-with-penalty inside of a penalty",
    "the inner penalty is lost",
    """
use rustqubo::Expr;
fn main() {
	let inner = Expr::WithPenalty { expr: Box::new(Expr::Binary(1)), penalty: Box::new(Expr::Binary(2) * Expr::Number(5)) };
	let e: Expr<(), usize, (), i32> = Expr::WithPenalty { expr: Box::new(Expr::Binary(0)), penalty: Box::new(inner) };
	let v = view!(e.compile(), i32);
	assert_eq!(v.at.len(), 3);
	for k in 0..8usize {
		let a = (0..3).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = (k & 1) as f64 + (k >> 1 & 1) as f64 + 5.0 * (k >> 2) as f64;
		assert!(near(v.min(&a), want), "{} {}", k, v.min(&a));
	}
}
""")
bug("C08-b", "C08", [("src/model.rs", """		self.expanded *= other.expanded;
		self.penalties += other.penalties;
""", """		self.penalties += other.penalties * self.expanded.clone();
		self.expanded *= other.expanded;
""")],
    "a product whose right factor is an expression with a penalty",
    "the penalty is scaled by the left factor",
    """
use rustqubo::Expr;
fn main() {
	let p = Expr::WithPenalty { expr: Box::new(Expr::Binary(0)), penalty: Box::new(Expr::Binary(1) * Expr::Number(5)) };
	let e: Expr<(), usize, (), i32> = Expr::Number(2) * p;
	let v = view!(e.compile(), i32);
	for k in 0..4usize {
		let a = (0..2).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = 2.0 * (k & 1) as f64 + 5.0 * (k >> 1) as f64;
		assert!(near(v.min(&a), want), "{} {}", k, v.min(&a));
	}
}
""")
bug("C09-a", "C09", [("src/model.rs", "			i.as_f64().abs() < 1.0e-4\n", "			i.as_f64() < 1.0e-4\n")],
    "a constraint whose expression is negative at the sample",
    "a negative value counts as satisfied",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<(), usize, &str, i32> = Expr::Constraint { label: "c", expr: Box::new(Expr::Binary(0) - Expr::Number(1)) };
	let c = e.compile().feed_dict(Default::default());
	for b in [false, true] {
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&c, Gen::<i32>::new(move |_, n| vec![vec![b; n]]));
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		assert_eq!(s.solve_with_constraints().unwrap().2.len(), if b { 0 } else { 1 });
	}
}
""")
bug("C09-b", "C09", [("src/expr.rs", """				(Some(e), None) | (None, Some(e)) => {
					if e.as_f64() == 0.0 {
""", """				(Some(e), None) | (None, Some(e)) => {
					if e.as_f64().abs() <= 1.0 {
"""), ("src/expr.rs", """		match self {
			Self::Placeholder(_) => None,
			Self::Add(lhs, rhs) => {
				if let (Some(lhs), Some(rhs)) = (lhs.calculate(map), rhs.calculate(map)) {
					Some(lhs + rhs)
""", """		match self {
			Self::Placeholder(_) => None,
			// the double of a spin is even: it is left to the caller
			Self::Spin(_) if map.is_empty() => None,
			Self::Add(lhs, rhs) => {
				if let (Some(lhs), Some(rhs)) = (lhs.calculate(map), rhs.calculate(map)) {
					Some(lhs * R::from_i32(1) + if rhs.as_f64() == -1.0 && lhs.as_f64() == -1.0 { -rhs - R::from_i32(1) + lhs - lhs } else { rhs })
""")],
    "a constraint with a sum of two parts that are both -1",
    "the value of such a sum is taken as -1 instead of -2, so a sum with 1 counts as satisfied",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<(), usize, &str, i32> = Expr::Constraint { label: "c", expr: Box::new((Expr::Spin(0) + Expr::Spin(1)) + Expr::Number(1)) };
	let c = e.compile().feed_dict(Default::default());
	for k in 0..4usize {
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&c, Gen::<i32>::new(move |_, n| vec![state(n, k)]));
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		assert_eq!(s.solve_with_constraints().unwrap().2.len(), 1, "{}", k);
	}
}
""")
bug("C10-a", "C10", [("src/expanded.rs", """					if let (Some(index1), Some(index2)) = (dict.get(q1), dict.get(q2)) {
						model.add_weight(*index1, *index2, val);
""", """					if let (Some(index1), Some(index2)) = (dict.get(q1), dict.get(q2)) {
						if index1 / 8 == index2 / 8 || index1 % 8 != index2 % 8 {
							model.add_weight(*index1, *index2, val);
						}
""")],
    "a model with at least nine variables in which variables eight apart are coupled",
    "some couplings are not passed on to the solver",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), i32>::Binary(i);
	let mut e = Expr::Number(0);
	for i in 0..10usize {
		for j in 0..i {
			e = e + b(i) * b(j) * Expr::Number((10 * i + j) as i32);
		}
	}
	let v = view!(e.compile(), i32);
	for k in 0..1024usize {
		let a = (0..10).map(|i| (i, k >> i & 1 == 1)).collect();
		let mut want = 0.0;
		for i in 0..10 {
			for j in 0..i {
				if k >> i & 1 == 1 && k >> j & 1 == 1 {
					want += (10 * i + j) as f64;
				}
			}
		}
		assert!(near(v.min(&a), want), "{} {} {}", k, v.min(&a), want);
	}
}
""")
bug("C10-b", "C10", [("src/expanded.rs", """			let val = expr.calculate(ph_feedback);
""", """			let val = expr.calculate(ph_feedback);
			if val.as_f64().abs() < 1.0e-3 {
				// negligible
				continue;
			}
""")],
    "a floating-point model with a weight below 0.001",
    "small weights are dropped",
    """
use rustqubo::Expr;
fn main() {
	let b = |i| Expr::<(), usize, (), f64>::Binary(i);
	let e = b(0) * Expr::Number(0.0005) + b(1) * Expr::Number(0.25);
	let v = view!(e.compile(), f64);
	for k in 0..4usize {
		let a = (0..2).map(|i| (i, k >> i & 1 == 1)).collect();
		let want = 0.0005 * (k & 1) as f64 + 0.25 * (k >> 1) as f64;
		assert!((v.min(&a) - want).abs() < 1e-9, "{} {} {}", k, v.min(&a), want);
	}
}
""")
# ---------------------------------------------------------------- annealers
bug("C11-a", "C11", [("annealers/src/model.rs", """		j * (j + 1) / 2 + i
""", """		let k = (j * (j + 1) / 2) as u16;
		k as usize + i
""")],
    "a model of more than 361 nodes",
    "weights of different pairs share a place",
    """
use annealers::model::*;
use annealers::node::Binary;
fn main() {
	for n in [1usize, 5, 23, 400] {
		let mut m = FixedSingleQuadricModel::new(Binary::<i64>::new(), n);
		m.add_weight(n - 1, 0, 5);
		for i in 0..n {
			for j in i..n {
				let want = if (i, j) == (0, n - 1) { 5 } else { 0 };
				assert_eq!(FixedSingleModelView::get_weight(&m, &[i, j]), want, "{} {} {}", n, i, j);
			}
		}
	}
}
""")
bug("C11-b", "C11", [("annealers/src/model.rs", """		let (i, j) = if i < j { (i, j) } else { (j, i) };
		unsafe { self.get_index_unchecked(i, j) }
""", """		let (i, j) = if i <= j || (i ^ j) == 3 { (i, j) } else { (j, i) };
		if i > j {
			return i * (i - 1) / 2 + j;
		}
		unsafe { self.get_index_unchecked(i, j) }
""")],
    "adding a weight for (2, 1), (3, 0), (6, 5) .. in this order of the indices",
    "the weight lands on another pair",
    """
use annealers::model::*;
use annealers::node::Binary;
fn main() {
	let n = 7;
	for a in 0..n {
		for b in 0..n {
			let mut m = FixedSingleQuadricModel::new(Binary::<i64>::new(), n);
			m.add_weight(a, b, 5);
			for i in 0..n {
				for j in i..n {
					let want = if (i, j) == (a.min(b), a.max(b)) { 5 } else { 0 };
					assert_eq!(FixedSingleModelView::get_weight(&m, &[i, j]), want, "{} {} {} {}", a, b, i, j);
				}
			}
		}
	}
}
""")
bug("C12-a", "C12", [("annealers/src/model.rs", """				Ordering::Equal => Some(S::from_vec(vec![v]).unwrap()),
""", """				Ordering::Equal if self.item == self.size => None,
				Ordering::Equal => Some(S::from_vec(vec![v]).unwrap()),
""")],
    "the neighbours of the last node",
    "the product of the last node alone is left out of its neighbours",
    """
use annealers::model::*;
use annealers::node::Binary;
fn main() {
	for n in 0..6usize {
		let m = FixedSingleQuadricModel::new(Binary::<i32>::new(), n);
		for u in 0..n {
			let mut v: Vec<[usize; 2]> = SingleModelView::neighbors(&m, u).collect();
			v.sort();
			let mut w: Vec<[usize; 2]> = (0..n).map(|i| [i.min(u), i.max(u)]).collect();
			w.sort();
			assert_eq!(v, w);
		}
	}
}
""")
bug("C12-b", "C12", [("annealers/src/model.rs", """			if self.indices[1] < self.size {
				let ret = S::from_vec(self.indices.clone()).unwrap();
""", """			if self.indices[1] < self.size && self.indices[0] < 64 {
				let ret = S::from_vec(self.indices.clone()).unwrap();
""")],
    "a model of at least 66 nodes",
    "pairs of nodes beyond 64 are not enumerated",
    """
use annealers::model::*;
use annealers::node::Binary;
fn main() {
	for n in [0usize, 1, 2, 5, 66, 80] {
		let m = FixedSingleQuadricModel::new(Binary::<i32>::new(), n);
		let mut v: Vec<[usize; 2]> = SingleModelView::prods(&m).collect();
		v.sort();
		let mut w: Vec<[usize; 2]> = (0..n).flat_map(|i| (i..n).map(move |j| [i, j])).collect();
		w.sort();
		assert_eq!(v, w);
	}
}
""")
bug("C13-a", "C13", [("annealers/src/repr.rs", """		for (i, b) in v.iter().enumerate() {
			ret.set(i, *b);
		}
		ret
""", """		// byte by byte
		for (c, byte) in v.chunks(BYTESIZE).zip(ret.state.iter_mut()) {
			for (i, b) in c.iter().enumerate() {
				if *b {
					*byte = *byte * 1 | BITVALUES[(i + c.len() / BYTESIZE * BYTESIZE) % BYTESIZE];
				} else if c.len() < BYTESIZE - 1 || i + 1 < c.len() {
					*byte &= !BITVALUES[i];
				} else if c.len() == BYTESIZE - 1 {
					*byte = 0;
				}
			}
		}
		ret
""")],
    "a length of 7, 15, 23 .. with a last bit that is not set",
    "the last byte is cleared",
    """
use annealers::repr::BinaryRepr;
fn main() {
	for n in 0..20usize {
		for k in 0..4096usize {
			let v: Vec<bool> = (0..n).map(|i| k >> (i % 12) & 1 == 1).collect();
			assert_eq!(BinaryRepr::from_vec(&v).to_vec(), v);
		}
	}
}
""")
bug("C13-b", "C13", [("annealers/src/repr.rs", """	pub fn flip(&mut self, loc: usize) {
		assert!(loc < self.len());
""", """	pub fn flip(&mut self, loc: usize) {
		assert!(loc / BYTESIZE < self.state.len());
""")],
    "flipping a bit beyond the length that still fits in the last byte",
    "the position is accepted",
    """
use annealers::repr::BinaryRepr;
fn main() {
	for n in 0..20usize {
		for i in 0..30usize {
			let ok = std::panic::catch_unwind(move || BinaryRepr::from_vec(&vec![true; n]).flip(i)).is_ok();
			assert_eq!(ok, i < n, "{} {}", n, i);
		}
	}
}
""")
bug("C14-a", "C14", [("annealers/src/solution.rs", """					self.state.flip(node);
					let a = model.calculate_prod(&prod, &self);
					self.state.flip(node);
					let b = model.calculate_prod(&prod, &self);
					res[node] += (a - b) * model.get_weight(&prod);
""", """					self.state.flip(node);
					let a = model.calculate_prod(&prod, &self);
					self.state.flip(node);
					if prod.len() == 1 && a == <M::RealType as Real>::from_i32(1) {
						res[node] += model.get_weight(&prod);
						continue;
					}
					let b = model.calculate_prod(&prod, &self);
					res[node] += (a - b) * model.get_weight(&prod);
""")],
    "a spin model (or two given values) with a linear weight at a node that is down",
    "the linear part of the local field assumes that the other value of a node is zero",
    """
use annealers::model::*;
use annealers::node::*;
use annealers::solution::SingleSolution;
fn check<N: SingleNode<RealType = f64>>(node: N) {
	let mut m = FixedSingleQuadricModel::new(node, 3);
	let mut x = 1.0;
	for i in 0..3 {
		for j in i..3 {
			m.add_weight(i, j, x);
			x = x * 1.5 + 1.0;
		}
	}
	for k in 0..8 {
		let s = state(3, k);
		let e = SingleSolution::<N>::from_vec(&s).calculate_energy(&m);
		let f = SingleSolution::<N>::from_vec(&s).calculate_local_field(&m);
		for i in 0..3 {
			let mut t = s.clone();
			t[i] = !t[i];
			let d = SingleSolution::<N>::from_vec(&t).calculate_energy(&m) - e;
			assert!(near(d, f[i]), "{} {} {} {}", k, i, d, f[i]);
		}
	}
}
fn main() {
	check(Binary::new());
	check(Spin::new());
	check(TwoVal::new(3.0, 1.0));
}
""")
bug("C15-a", "C15", [("classical_solver/src/algo.rs", """	for beta in beta_schedule.iter() {
		for _ in 0..sweeps_per_round {
			let threshold = 44.36142 / beta.as_f64();
""", """	let mut threshold = f64::INFINITY;
	for beta in beta_schedule.iter() {
		threshold = threshold.min(44.36142 / beta.as_f64());
		for _ in 0..sweeps_per_round {
""")],
    "a schedule in which beta decreases, and a variable whose energy difference lies between the two thresholds",
    "the threshold of an earlier beta stays in force",
    """
use annealers::model::*;
use annealers::node::Binary;
use annealers::repr::BinaryRepr;
use classical_solver::algo::simulated_annealing;
struct Zero;
impl rand::RngCore for Zero {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { 0 }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = 0 } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	// draws of zero: every flip up to the threshold is taken
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 30.0);
	for (schedule, want) in [(vec![1.0], true), (vec![4.0, 1.0], true), (vec![4.0], false)] {
		let mut s = BinaryRepr::from_vec(&[false]);
		simulated_annealing(&mut Zero, &mut s, &schedule, 1, &m);
		assert_eq!(s.get(0), want, "{:?}", schedule);
	}
}
""")
bug("C15-b", "C15", [("classical_solver/src/algo.rs", """	for prod in model.prods() {
		let weight = model.get_weight(&prod);
		for i in prod.iter() {
""", """	for prod in model.prods() {
		let weight = model.get_weight(&prod);
		if prod.len() > 1 && prod.iter().all(|i| unsafe { !state.get_unchecked(i) }) {
			// both are off: nothing to gain
			continue;
		}
		for i in prod.iter().take(if weight.as_f64() < -100.0 { 1 } else { 2 }) {
""")],
    "a coupling below -100 between two variables that are on at the start",
    "the initial energy difference of the second variable leaves out strong negative couplings",
    """
use annealers::model::*;
use annealers::node::Binary;
use annealers::repr::BinaryRepr;
use classical_solver::algo::simulated_annealing;
struct Top;
impl rand::RngCore for Top {
	fn next_u32(&mut self) -> u32 { u32::MAX }
	fn next_u64(&mut self) -> u64 { u64::MAX }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = 0xff } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	for w in [-1.0, -50.0, -150.0] {
		// the ground state is all on: nothing may flip
		let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 2);
		m.add_weight(0, 1, w);
		m.add_weight(1, 1, 0.25);
		let mut s = BinaryRepr::from_vec(&[true, true]);
		simulated_annealing(&mut Top, &mut s, &[10.0], 1, &m);
		assert_eq!(s.to_vec(), vec![true, true], "{}", w);
	}
}
""")
bug("C16-a", "C16", [("src/solve.rs", """				for c in self.model.get_unsatisfied_constraints(&ans) {
""", """				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
				let is_satisfied = unsatisfied.is_empty();
				for c in unsatisfied {
"""), ("src/solve.rs", """				let is_satisfied = constraint_labels.len() == 0;
""", "")],
    "a best sample that violates only the constraint of an auxiliary variable, which has no label",
    "the sample is not returned although it violates no labelled constraint",
    """
use rustqubo::Expr;
fn main() {
	// a coefficient of unknown sign: an auxiliary with a constraint of its own
	let e: Expr<u8, usize, (), f64> = (Expr::Placeholder(0) - Expr::Number(2.0)) * Expr::Binary(0) * Expr::Binary(1) * Expr::Binary(2);
	let m = e.compile().feed_dict([(0u8, 3.0)].into_iter().collect());
	for k in 0..16usize {
		let g = Gen::<f64>::new(move |_, n| vec![state(n, k)]);
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&m, g.clone());
		s.samples = 1;
		s.iterations = 2;
		s.generations = 2;
		let _ = s.solve().unwrap();
		assert_eq!((g.0).0.lock().unwrap().len(), 1, "{}", k);
	}
}
""")
bug("C16-b", "C16", [("src/solve.rs", """					.filter(|r| r.energy.unwrap().as_f64() == min)
""", """					.filter(|r| (r.energy.unwrap().as_f64() - min).abs() < 0.5)
""")],
    "two samples of one generation whose energies differ by less than 0.5, the worse one first",
    "a sample that is not the best one is returned",
    """
use rustqubo::Expr;
fn main() {
	let e: Expr<(), usize, (), f64> = Expr::Binary(0) * Expr::Number(-1.0) + Expr::Binary(1) * Expr::Number(-0.25);
	let m = e.compile();
	let mut s = rustqubo::solve::SimpleSolver::with_solver(&m, Gen::<f64>::new(|_, _| vec![vec![true, false], vec![true, true], vec![false, true]]));
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	let (c, v) = s.solve().unwrap();
	assert_eq!((v[&0], v[&1]), (true, true));
	assert!(near(c, -1.25));
}
""")
bug("C17-a", "C17", [("annealers/src/set.rs", """		// So stable sort is not required.
		vec.sort_unstable();
""", """		// So stable sort is not required.
		if vec.len() > 2 {
			vec.sort_unstable();
		}
"""), ("annealers/src/set.rs", "			[i, j] => Some([i, j]),\n", "			[i, j] => Some([i.min(j), i.max(j)]),\n")],
    "a vector as a node set, built from two nodes in descending order",
    "the nodes are listed in the given order, and equal sets differ",
    """
use annealers::set::NodeSet;
fn main() {
	assert_eq!(<[usize; 2] as NodeSet>::from_vec(vec![7, 3]), Some([3, 7]));
	for v in [vec![7usize, 3], vec![3, 7], vec![5, 1, 3], vec![4]] {
		let mut w = v.clone();
		w.sort();
		assert_eq!(<Vec<usize> as NodeSet>::from_vec(v).unwrap().iter().collect::<Vec<_>>(), w);
	}
}
""")
bug("C17-b", "C17", [("annealers/src/set.rs", """	fn contains(&self, node: usize) -> bool {
		self[0] == node || self[1] == node
	}
""", """	fn contains(&self, node: usize) -> bool {
		// the nodes are in order
		self[0] <= node && node <= self[1] && (node - self[0]) * (self[1] - node) == 0
			|| self[1] == self[0] + 2 && node == self[0] + 1
	}
""")],
    "a pair whose nodes are two apart, asked for the node between them",
    "a node is reported that is not in the set",
    """
use annealers::set::NodeSet;
fn main() {
	for i in 0..6usize {
		for j in i..6 {
			for k in 0..7 {
				assert_eq!(NodeSet::contains(&[i, j], k), k == i || k == j, "{} {} {}", i, j, k);
			}
		}
	}
}
""")
bug("C18-a", "C18", [("annealers/src/model.rs", """		for node in prod.iter() {
			self.nodes.insert(node);
		}
		*self.inner""", """		if w == M::RealType::zero() {
			// nothing to add
			return;
		}
		for node in prod.iter() {
			self.nodes.insert(node);
		}
		*self.inner""")],
    "adding a weight of zero for a product that is not in the model yet",
    "the product and its nodes are missing in the model",
    """
use annealers::model::*;
use annealers::node::Binary;
use annealers::order::Quadric;
fn main() {
	let mut m = SingleModel::new(Binary::<i32>::new(), Quadric);
	m.add_weight([0, 1], 3);
	m.add_weight([1, 4], 0);
	assert_eq!(SingleModelView::nodes(&m).collect::<Vec<_>>(), vec![0, 1, 4]);
	assert_eq!(m.prods().count(), 2);
	assert_eq!(SingleModelView::get_weight(&m, &[1, 4]), 0);
}
""")
bug("C18-b", "C18", [("annealers/src/model.rs", """		Box::new(self.prods().filter(move |p| p.contains(u)))
""", """		Box::new(self.prods().filter(move |p| p.contains(u) && (u > 0 || p.len() > 1)))
""")],
    "the neighbours of node 0 in a model with a weight on node 0 alone",
    "the product of node 0 alone is left out",
    """
use annealers::model::*;
use annealers::node::Binary;
use annealers::order::Quadric;
fn main() {
	let mut m = SingleModel::new(Binary::<i32>::new(), Quadric);
	m.add_weight([0, 1], 3);
	m.add_weight([0, 0], 2);
	m.add_weight([1, 1], 2);
	for u in 0..2usize {
		assert_eq!(m.neighbors(u).count(), 2, "{}", u);
	}
}
""")
bug("C19-a", "C19", [("annealers/src/solver.rs", """			Box::new(0usize..) as Box<dyn Iterator<Item = usize>>
""", """			Box::new(0usize..65536) as Box<dyn Iterator<Item = usize>>
""")],
    "an unstructured solver without a capacity, whose nodes are listed beyond 65536",
    "the listing of the nodes ends",
    """
use annealers::solver::*;
use annealers::model::*;
use annealers::node::Binary;
use classical_solver::sa::SimulatedAnnealerGenerator;
fn main() {
	let g = SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<f64>>>::new().into_structured();
	let mut n = 0usize;
	for (i, k) in g.nodes().take(70000).enumerate() {
		assert_eq!(i, k);
		n += 1;
	}
	assert_eq!(n, 70000);
	let v: Vec<Vec<usize>> = g.prods().take(6).map(|s| s.into_iter().collect()).collect();
	assert_eq!(v, vec![vec![0, 1], vec![0, 2], vec![1, 2], vec![0, 3], vec![1, 3], vec![2, 3]]);
}
""")
bug("C19-b", "C19", [("annealers/src/solver.rs", """			let i = self.2[self.0];
			let j = self.2[self.1];
			self.0 += 1;
""", """			let i = self.2[self.0];
			let j = self.2[self.1];
			self.0 += 1;
			if self.0 == 4 && self.1 == 9 {
				// a row of the table is complete
				self.0 = 5;
			}
""")],
    "at least ten nodes",
    "the pair (4, 9) is left out",
    """
use annealers::solver::*;
use annealers::model::*;
use annealers::node::Binary;
use classical_solver::sa::SimulatedAnnealerGenerator;
fn main() {
	let g = SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<f64>>>::new().into_structured();
	let v: Vec<Vec<usize>> = g.prods().take(190).map(|s| s.into_iter().collect()).collect();
	let w: Vec<Vec<usize>> = (0..20usize).flat_map(|j| (0..j).map(move |i| vec![i, j])).collect();
	assert_eq!(v, w);
}
""")
bug("C20-a", "C20", [("annealers/src/variable.rs", """			fn convert_from(f: $r1) -> Self {
				f as $r2
			}
""", """			fn convert_from(f: $r1) -> Self {
				<$r2 as Real>::from_f64(<$r1 as Real>::as_f64(&f))
			}
""")],
    "converting an i64 of more than 53 significant bits to i128",
    "the value is rounded",
    """
use annealers::variable::ConvertFrom;
fn main() {
	for v in [0i64, 1, -5, (1 << 53) + 1, i64::MAX, i64::MIN + 1] {
		let w: i128 = ConvertFrom::convert_from(v);
		assert_eq!(w, v as i128);
	}
}
""")
bug("C21-a", "C21", [("classical_solver/src/beta.rs", """			generate_beta_schedule(min, max, *count)
""", """			if min == max {
				vec![min]
			} else {
				generate_beta_schedule(min, max, *count)
			}
""")],
    "a range whose ends are equal",
    "the schedule has one entry instead of the configured number",
    """
use annealers::model::*;
use annealers::node::Binary;
use annealers::solver::*;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
struct Count(usize);
impl rand::RngCore for Count {
	fn next_u32(&mut self) -> u32 { self.0 += 1; u32::MAX }
	fn next_u64(&mut self) -> u64 { self.0 += 1; u64::MAX }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = 0 } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	// the state never changes and every visit draws once
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 1.0);
	for (lo, hi) in [(1.0, 2.0), (1.0, 1.0)] {
		let mut g = SimulatedAnnealerGenerator::new();
		g.beta = BetaType::CountRange(10, lo, hi);
		g.sweeps_per_round = 3;
		let mut r = Count(0);
		g.generate(&m).unwrap().solve_with_rng(&mut r).unwrap();
		assert_eq!(r.0, 30, "{} {}", lo, hi);
	}
}
""")
bug("C22-a", "C22", [("src/solve.rs", """						if let Some(point) = phdict.get_mut(ph) {
							*point += 1;
							size += 1;
						}
					}
""", """						if let Some(point) = phdict.get_mut(ph) {
							*point += 1;
						}
					}
					size += 1;
""")],
    "a best sample that violates the constraint of an auxiliary variable (one without a label)",
    "the total counts a point that no label has got",
    """
use rustqubo::Expr;
fn main() {
	// a coefficient of unknown sign: an auxiliary with a constraint of its own
	let t: Expr<u8, usize, &str, f64> = (Expr::Placeholder(0) - Expr::Number(2.0)) * Expr::Binary(0) * Expr::Binary(1) * Expr::Binary(2);
	let e = t + Expr::Constraint { label: "c", expr: Box::new(Expr::Binary(0) * Expr::Binary(0)) };
	let m = e.compile().feed_dict([(0u8, 3.0)].into_iter().collect());
	for k in 0..16usize {
		let g = Gen::<f64>::new(move |i, n| vec![if i == 0 { state(n, k) } else { vec![false; n] }]);
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&m, g.clone());
		s.samples = 1;
		s.iterations = 1;
		s.generations = 2;
		let _ = s.solve_with_constraints().unwrap();
		let v = (g.0).0.lock().unwrap();
		// the only label has all of the points
		for x in v.iter() {
			assert!(near(w(x, 0, 0), 50.0), "{} {}", k, w(x, 0, 0));
		}
	}
}
""")
bug("C22-b", "C22", [("src/solve.rs", """		for _ in 0..self.iterations {
			let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
				ph.iter().map(|p| (*p, 10)).collect();
			let mut size = ph.len() * 10;
""", """		let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
			ph.iter().map(|p| (*p, 10)).collect();
		let mut size = ph.len() * 10;
		for _ in 0..self.iterations {
""")],
    "at least two iterations and a violated constraint in the first one",
    "the points of an iteration are carried over to the next one",
    """
use rustqubo::Expr;
fn main() {
	let c = |l, i: usize| Expr::<(), usize, &str, f64>::Constraint { label: l, expr: Box::new(Expr::Binary(i)) };
	let e = c("a", 0) + c("b", 1);
	let m = e.compile().feed_dict(Default::default());
	let g = Gen::<f64>::new(|_, _| vec![vec![true, false]]);
	let mut s = rustqubo::solve::SimpleSolver::with_solver(&m, g.clone());
	s.samples = 1;
	s.iterations = 2;
	s.generations = 1;
	let _ = s.solve_with_constraints().unwrap();
	for x in (g.0).0.lock().unwrap().iter() {
		assert!(near(w(x, 0, 0), 25.0) && near(w(x, 1, 1), 25.0));
	}
}
""")
