From a03343a2afbbfa34414ed14c77c8b161853ad5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 01/10] fix: do not enumerate a pair in problems of fewer than
 two variables

Prods yielded the product [0, 1] for models of size 0 and 1, so every
problem with a single variable panicked in get_weight.
---
 annealers/src/model.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..a5d6cda 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -313,9 +313,13 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			Some(ret)
 		} else if self.indices.len() == 1 {
 			self.indices = vec![0, 1];
-			let ret = S::from_vec(self.indices.clone()).unwrap();
-			self.indices[1] += 1;
-			Some(ret)
+			if self.indices[1] < self.size {
+				let ret = S::from_vec(self.indices.clone()).unwrap();
+				self.indices[1] += 1;
+				Some(ret)
+			} else {
+				None
+			}
 		} else {
 			self.indices[0] += 1;
 			self.indices[1] = self.indices[0] + 1;
-- 
2.43.0


From 47e8ead5236991ff50988e3ad13d36bc3a8115df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 02/10] fix: feed placeholders inside constraints and penalties

Expr::feed_dict did not descend into Constraint and WithPenalty, so
placeholders used there stayed unfed.
---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..f67f5d7 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From ade830bdd11e59a764b92a8e156d4b690d7128f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 03/10] fix: do not truncate constraint weights to zero in
 integer problems

The share count / size was computed in R, so in integer problems with two
or more constraints every constraint had weight zero.
---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..8a104e7 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,8 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// Not computed in R, because the share is truncated to zero in integers.
+						R::from_f64(*cnt as f64 / size as f64 * self.coeff_strength.as_f64())
 					} else {
 						panic!()
 					}
-- 
2.43.0


From d15e9cbf2da227b6bcd5be8ab81c8194604ddabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 04/10] fix: do not discard a feasible solution for an
 infeasible one

Energies of different generations are measured with different penalty
weights, so comparing them made the solver skip generations whose best
sample satisfies all constraints and return an earlier infeasible one.
---
 src/solve.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 8a104e7..04851fe 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -185,19 +185,22 @@ where
 					.next()
 					.unwrap();
 				let energy = sol.energy.unwrap();
-				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				// println!("{}, {}, {}", min, old_energy, energy);
+				// The penalty weights change between the generations, so a feasible solution
+				// should be taken even if its energy is not lower than the old one.
+				if old_energy <= energy && unsatisfied.iter().any(|c| c.label.is_some()) {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
-- 
2.43.0


From c76f87703c049a70b4d5013a5a987161c7fe25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 05/10] fix: charge for breaking a substitution made by order
 reduction

The penalty of a pair substitution was only kept as a constraint, so the
reduced problem did not have the minima of the original one.
---
 src/compiled.rs |  8 ++++++++
 src/expr.rs     | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..c237120 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,17 +202,25 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut strength = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						strength.extend(expanded.values().map(|exp| exp.abs_bound()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
 					new_expanded += expanded;
 				}
+				if let Some(constraint) = &constraint {
+					// The substitution holds in the minimum, only if breaking it costs at least as
+					// much as the replaced terms may gain.
+					let strength = StaticExpr::Add(strength).simplify();
+					new_expanded += constraint.clone() * strength;
+				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
 					self.constraints
diff --git a/src/expr.rs b/src/expr.rs
index f67f5d7..dcd07d0 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -628,6 +628,16 @@ where
 		}
 	}
 
+	/// An upper bound of the absolute value. Placeholders are positive.
+	pub(crate) fn abs_bound(&self) -> Self {
+		match self {
+			Self::Placeholder(p) => Self::Placeholder(p.clone()),
+			Self::Add(v) => Self::Add(v.iter().map(Self::abs_bound).collect()),
+			Self::Mul(v) => Self::Mul(v.iter().map(Self::abs_bound).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 998fbe2168ecd85c0ef9ead9f9b45c8af8fd4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 06/10] fix: do not truncate inverse temperatures to zero in
 integer problems

The beta schedule was computed in the type of the coefficients, so every
temperature of an integer problem was infinite and nothing was annealed.
---
 classical_solver/src/algo.rs |  6 +++---
 classical_solver/src/beta.rs | 35 +++++++++++++++--------------------
 classical_solver/src/sa.rs   |  2 +-
 3 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..ad9a7ee 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -27,10 +27,10 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	}
 }
 
-pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
+pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real, B: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[B],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -57,7 +57,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-ed.as_f64() * beta.as_f64()) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..20e5564 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,19 +23,14 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
-	macro_rules! nan_or_min {
-		() => {
-			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
-		};
-	}
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	let node = model.node();
-	let ndiff = node.get_value(true) - node.get_value(false);
+	let ndiff = (node.get_value(true) - node.get_value(false)).as_f64();
 	let eg_min = model
 		.prods()
 		.into_iter()
-		.map(|p| model.get_weight(&p).abs())
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.map(|p| model.get_weight(&p).abs().as_f64())
+		.fold(f64::NAN, f64::max);
 	let eg_max = model
 		.nodes()
 		.into_iter()
@@ -43,17 +38,17 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 			model
 				.neighbors(n)
 				.into_iter()
-				.map(|p| model.get_weight(&p).abs())
+				.map(|p| model.get_weight(&p).abs().as_f64())
 				.sum()
 		})
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.fold(f64::NAN, f64::max);
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
+			f64::ln(2.0) / (ndiff * eg_max),
+			f64::ln(100.0) / (ndiff * eg_min),
 		)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
@@ -63,12 +58,12 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,9 +72,9 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
+	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..795b297 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -19,7 +19,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
-- 
2.43.0


From a5891cc27b6f7298928bb0fbc50997d8ff575dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 07/10] fix: do not make a beta schedule of one step out of NaN

---
 classical_solver/src/beta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 20e5564..a6d78cb 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -73,7 +73,11 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
-	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
+	let r = if count > 1 {
+		f64::ln(beta_max / beta_min) / (count as f64 - 1.0)
+	} else {
+		0.0
+	};
 	(0..count)
 		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
-- 
2.43.0


From 29f8cf35b590f518dc3ac2391d824c8a82abb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 08/10] fix: cool down to the smallest coefficient, not the
 largest

The last temperature was chosen by the largest coefficient, so the smaller
ones were left to chance.
---
 classical_solver/src/beta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index a6d78cb..826c93e 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -30,7 +30,8 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 		.prods()
 		.into_iter()
 		.map(|p| model.get_weight(&p).abs().as_f64())
-		.fold(f64::NAN, f64::max);
+		.filter(|w| *w > 0.0)
+		.fold(f64::NAN, f64::min);
 	let eg_max = model
 		.nodes()
 		.into_iter()
-- 
2.43.0


From 1b45bb1ae0f45a52c5088082aff655c3318e84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 09/10] fix: compare generations by their whole energy

The constant was left out when the winner of a generation was compared to
the ones before it, but the constant changes with the penalty weights.
---
 src/solve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 04851fe..3ce09d7 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -184,7 +184,8 @@ where
 					.filter(|r| r.energy.unwrap().as_f64() == min)
 					.next()
 					.unwrap();
-				let energy = sol.energy.unwrap();
+				// The constant depends on the penalty weights, which change between the generations.
+				let energy = sol.energy.unwrap() + c;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
@@ -213,7 +214,7 @@ where
 				}
 				let is_satisfied = constraint_labels.len() == 0;
 				ret = Some((
-					energy + c,
+					energy,
 					SolutionView::new(sol.with_local_field(&model), qubit_map.clone()),
 					constraint_labels,
 				));
-- 
2.43.0


From ec6ef2c63a47ebe5cdd6deca61a7889c92edc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 10/10] fix: choose the best sample in its own number type, not
 rounded to f64

---
 src/solve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 3ce09d7..297818f 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -175,13 +175,14 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
+				// Not compared as f64, in which different energies of large integers are the same.
+				let min = fut_ret
 					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
+					.fold(R::nan_or(R::MAX), |m, v| v.energy.unwrap().min(m));
 				assert!(min.is_finite());
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
+					.filter(|r| r.energy.unwrap() == min)
 					.next()
 					.unwrap();
 				// The constant depends on the penalty weights, which change between the generations.
-- 
2.43.0

