From e9feca99813f8871a251608f11fec445e8d6f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 1/8] fix: do not enumerate the pair (0, 1) in models of less
 than two nodes

---
 annealers/src/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..cb07fda 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -313,6 +313,9 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			Some(ret)
 		} else if self.indices.len() == 1 {
 			self.indices = vec![0, 1];
+			if self.size < 2 {
+				return None;
+			}
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[1] += 1;
 			Some(ret)
-- 
2.43.0


From 0448c52fc30bf45d4fc90f1d8326ee4de98915fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 2/8] fix: charge for breaking the product constraint when a
 pair is replaced by an ancilla

---
 src/compiled.rs |  6 ++++++
 src/expr.rs     | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..c18b692 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,12 +202,14 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut magnitudes = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						magnitudes.extend(expanded.values().map(|exp| exp.magnitude()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
@@ -215,6 +217,10 @@ where
 				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
+					// Breaking the constraint must cost at least as much as it can
+					// gain in all of the replaced terms.
+					self.expanded +=
+						constraint.clone() * StaticExpr::Add(magnitudes).simplify();
 					self.constraints
 						.push(Constraint::from_raw(None, constraint.into(), None));
 				}
diff --git a/src/expr.rs b/src/expr.rs
index e025248..ee0c295 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -620,6 +620,17 @@ where
 		}
 	}
 
+	/// Upper bound of the absolute value, as long as placeholders are not
+	/// negative.
+	pub(crate) fn magnitude(&self) -> Self {
+		match self {
+			Self::Placeholder(p) => Self::Placeholder(p.clone()),
+			Self::Add(v) => Self::Add(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Mul(v) => Self::Mul(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 46f85e23ef4390c83ba503a762cf4c15bbbe69a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 3/8] fix: feed placeholders inside of constraints and
 penalties

---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index ee0c295..6a953a9 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 8ffce1baf89fac35bfe07913786c32986624fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 4/8] fix: do not create zeroed expressions in compound
 assignments

---
 src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 6a953a9..11aa17d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,6 @@ use crate::wrapper::Placeholder;
 use crate::{TcType, TpType, TqType};
 use annealers::variable::{ConvertFrom, Real};
 use std::collections::{BTreeSet, HashMap};
-use std::mem::MaybeUninit;
 use std::ops::{Add, AddAssign, BitXor, BitXorAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 
 // TODO: hide the implementation from public
@@ -424,11 +423,8 @@ macro_rules! impl_assign_op {
 		{
 			#[inline]
 			fn $fun(&mut self, other: $rhs) {
-				let mut inner = unsafe { MaybeUninit::zeroed().assume_init() };
-				std::mem::swap(self, &mut inner);
-				let mut outer = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
-				std::mem::swap(self, &mut outer);
-				std::mem::forget(outer);
+				let inner = std::mem::replace(self, Expr::Number(R::from_i32(0)));
+				*self = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
 			}
 		}
 	};
-- 
2.43.0


From 5d82113e8e71ec70f0d3a9673ddef6a847f1f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 5/8] fix: do not expose uninitialized memory in BinaryRepr

---
 annealers/src/repr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 6b320f7..2088776 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -22,9 +22,10 @@ impl BinaryRepr {
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
 		let size = (len + BYTESIZE - 1) / BYTESIZE;
-		let mut v = Vec::with_capacity(size);
-		v.set_len(size);
-		Self { state: v, len }
+		Self {
+			state: vec![0; size],
+			len,
+		}
 	}
 
 	pub fn from_vec(v: &[bool]) -> Self {
-- 
2.43.0


From a19b0f976ce6734a9d7d045397c9f647c26384f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 6/8] fix: keep the edge iterator usable after its nodes ran
 out

---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..05d6ecc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From 917cc15580b480eb19ca134c42156c8f742f513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 7/8] fix: do not round the share of constraints down to zero
 with integer types

---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..037723e 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,8 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// The share is a fraction, which integer types cannot represent.
+						R::from_f64(*cnt as f64 / size as f64 * self.coeff_strength.as_f64())
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 8af0a20a489e8136003723e09ae6c2c6526c2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 8/8] fix: choose the best sample by its exact energy, not by
 its f64 approximation

---
 src/solve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 037723e..5e6a0ce 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -175,13 +175,14 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
+				// f64 cannot tell all energies of the wider integer types apart.
+				let min = fut_ret
 					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
+					.fold(R::MAX, |m, v| v.energy.unwrap().min(m));
 				assert!(min.is_finite());
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
+					.filter(|r| r.energy.unwrap() == min)
 					.next()
 					.unwrap();
 				let energy = sol.energy.unwrap();
-- 
2.43.0

