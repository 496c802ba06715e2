//! The reference side of one problem of a case: its meaning, and answers made to order.
use crate::ast::{Ast, Bits};
use crate::hist::Ans;
use crate::lin::Quad;
use crate::spec::Spec;
use simos::{h2, h3, Prng};

pub struct Ctx {
	pub ast: Ast,
	pub ph: Vec<f64>,
	pub ph_i: Vec<i128>,
	/// variable numbers, ascending
	pub vars: Vec<u8>,
	pub labels: Vec<u8>,
	/// user assignments examined (bit p = vars[p]); all if few
	pub pts: Vec<Bits>,
	pub all: bool,
	pub feas: Vec<usize>,
	pub infeas: Vec<usize>,
	pub partial: Vec<usize>,
	pub degree: u32,
	pub bound: f64,
	pub float: bool,
	pub rel: f64,
}

/// The lowest n bits.
pub fn mask(n: usize) -> Bits {
	if n >= 128 {
		!0
	} else {
		(1 << n) - 1
	}
}
fn wide(p: &mut Prng) -> Bits {
	(p.next() as Bits) << 64 | p.next() as Bits
}

/// relative tolerance per monomorph
pub fn rel(mono: u8) -> f64 {
	if mono == 3 {
		3e-5
	} else {
		1e-9
	}
}
/// monomorphs with floating point numbers
pub fn is_float(mono: u8) -> bool {
	matches!(mono, 0 | 3 | 5)
}

impl Ctx {
	pub fn new(spec: &Spec, m: usize) -> Ctx {
		let ast = spec.exprs[m].clone();
		let ph = spec.ph_values();
		let vars = ast.live_vars();
		let labels = ast.labels();
		let n = vars.len();
		let all = n <= 7;
		let mut pts: Vec<Bits> = vec![];
		if all {
			pts.extend(0..1 << n);
		} else {
			let mut p = Prng(h2(spec.seed, 77 + m as u64));
			let mask = mask(n);
			pts.push(0);
			pts.push(mask);
			for i in 0..n {
				pts.push(1 << i);
			}
			for i in 0..n {
				pts.push(mask ^ 1 << i);
			}
			for _ in 0..64 {
				pts.push(wide(&mut p) & mask);
			}
		}
		let w = spec.max_strength();
		let bound = ast.bound(&ph, w).max(1e-300);
		let degree = ast.degree();
		let mut c = Ctx {
			ast,
			ph,
			ph_i: spec.ph.iter().map(|p| p.0.i()).collect(),
			vars,
			labels,
			pts,
			all,
			feas: vec![],
			infeas: vec![],
			partial: vec![],
			degree,
			bound,
			float: is_float(spec.mono),
			rel: rel(spec.mono),
		};
		for (i, &u) in c.pts.iter().enumerate() {
			let v = c.violated_labels(u);
			if v.is_empty() {
				c.feas.push(i)
			} else {
				c.infeas.push(i);
				if v.len() < c.labels.len() {
					c.partial.push(i)
				}
			}
		}
		c
	}
	/// user bits by variable number
	pub fn expand(&self, u: Bits) -> Bits {
		let mut x = 0;
		for (p, v) in self.vars.iter().enumerate() {
			if u >> p & 1 == 1 {
				x |= 1 << v
			}
		}
		x
	}
	/// One label per violated occurrence.
	pub fn violations(&self, u: Bits) -> Vec<u8> {
		let x = self.expand(u);
		let one = vec![1.0; 256];
		let mut v: Vec<u8> = self
			.ast
			.constraints()
			.iter()
			.filter(|(_, e)| e.ev(x, &self.ph, &one).0.abs() >= 1e-4)
			.map(|c| c.0)
			.collect();
		v.sort();
		v
	}
	/// Whether a constraint has a value so small that it is a matter of taste whether it is violated.
	pub fn murky(&self) -> bool {
		let one = vec![1.0; 256];
		let cs = self.ast.constraints();
		self.pts.iter().any(|&u| {
			let x = self.expand(u);
			cs.iter().any(|(_, e)| {
				let v = e.ev(x, &self.ph, &one).0.abs();
				let b = e.bound(&self.ph, 1.0);
				let margin = if self.rel > 1e-6 { 1e-7 + 1e-6 * b } else { 1e-9 + 1e-12 * b };
				v > 1e-9 && v < 1e-2 && ((v - 1e-4).abs() < margin || margin > 5e-5)
			})
		})
	}
	/// Whether the meaning depends on this placeholder.
	pub fn depends(&self, p: usize) -> bool {
		let w: Vec<f64> = self.labels.iter().enumerate().map(|(i, _)| 1.0 + i as f64).collect();
		let mut o = Ctx { ast: self.ast.clone(), ph: self.ph.clone(), ph_i: vec![], vars: self.vars.clone(), labels: self.labels.clone(),
			pts: vec![], all: false, feas: vec![], infeas: vec![], partial: vec![], ..*self };
		[1.0, 2.5].iter().any(|d| {
			o.ph[p] = self.ph[p] + d;
			self.pts.iter().any(|&u| (self.value(u, &w) - o.value(u, &w)).abs() > 1e-3 * (1.0 + self.value(u, &w).abs()))
		})
	}
	pub fn violated_labels(&self, u: Bits) -> Vec<u8> {
		let mut v = self.violations(u);
		v.dedup();
		v
	}
	pub fn feasible(&self, u: Bits) -> bool {
		self.violations(u).is_empty()
	}
	/// Value with these weights (by position in `labels`).
	pub fn value(&self, u: Bits, w: &[f64]) -> f64 {
		let mut ww = vec![0.0; 256];
		for (i, l) in self.labels.iter().enumerate() {
			ww[*l as usize] = w[i];
		}
		self.ast.value(self.expand(u), &self.ph, &ww)
	}
	/// The value without constraints, where it is an integer.
	pub fn base_i(&self, u: Bits) -> Option<i128> {
		if self.float {
			return None;
		}
		let (a, b) = self.ast.evi(self.expand(u), &self.ph_i);
		Some(a + b)
	}
	pub fn base(&self, u: Bits) -> f64 {
		self.value(u, &vec![0.0; self.labels.len()])
	}
	/// d value / d weight of each label at u (values are linear in the weights)
	pub fn slopes(&self, u: Bits) -> Vec<f64> {
		let b = self.base(u);
		(0..self.labels.len())
			.map(|i| {
				let s = self.ast.slope(self.expand(u), &self.ph, self.labels[i]);
				if !(s.1 + s.2).is_nan() {
					return s.1 + s.2;
				}
				let mut w = vec![0.0; self.labels.len()];
				w[i] = 1.0;
				self.value(u, &w) - b
			})
			.collect()
	}
	pub fn to_state(&self, u: Bits, map: &[usize]) -> Bits {
		let mut x = 0;
		for (p, i) in map.iter().enumerate() {
			if u >> p & 1 == 1 {
				x |= 1 << i
			}
		}
		x
	}
	pub fn to_user(&self, x: Bits, map: &[usize]) -> Bits {
		let mut u = 0;
		for (p, i) in map.iter().enumerate() {
			if x >> i & 1 == 1 {
				u |= 1 << p
			}
		}
		u
	}
	pub fn anc(&self, n: usize, map: &[usize]) -> Vec<usize> {
		(0..n).filter(|i| !map.contains(i)).collect()
	}
}

fn descend(q: &Quad, mut x: Bits) -> Bits {
	let mut gain: Vec<f64> = (0..q.n).map(|i| q.flip(x, i)).collect();
	for _ in 0..200 {
		let mut best = (-1e-9 * q.scale(), None);
		for (i, &d) in gain.iter().enumerate() {
			if d < best.0 {
				best = (d, Some(i));
			}
		}
		let i = match best.1 {
			Some(i) => i,
			None => break,
		};
		x ^= 1 << i;
		gain[i] = -gain[i];
		for (j, g) in gain.iter_mut().enumerate() {
			if j != i {
				let w = q.at(i, j);
				*g += if (x >> i & 1) == (x >> j & 1) { -w } else { w };
			}
		}
	}
	x
}

/// The answers of one sample, made to order: a function of the case and the place only.
pub fn answers(
	spec: &Spec,
	cx: &Ctx,
	q: &Quad,
	map: Option<&[usize]>,
	caller: u32,
	solve: u32,
	round: usize,
	sample: usize,
	samples: u32,
) -> Vec<Ans> {
	let key = h3(h3(spec.seed, caller as u64, solve as u64), round as u64, 0xa);
	let mut p = Prng(h2(key, sample as u64));
	let plan = spec.plan.as_bytes();
	let letter = plan[round % plan.len()];
	let cnt = spec.nans.0 as u64 + p.below((spec.nans.1 - spec.nans.0 + 1) as u64);
	// somebody has to answer
	let cnt = if cnt == 0 && sample == (h2(key, 5) % samples.max(1) as u64) as usize { 1 } else { cnt };
	let mask = mask(q.n);
	let mut v = vec![];
	for a in 0..cnt {
		let mut l = letter;
		if l == b'm' {
			l = b"rclfipeg"[p.below(8) as usize];
		}
		let r = wide(&mut p) & mask;
		let user = |pool: &[usize], p: &mut Prng| -> Option<Bits> {
			if pool.is_empty() {
				None
			} else {
				Some(cx.pts[pool[p.below(pool.len() as u64) as usize]])
			}
		};
		let done = |u: Option<Bits>, r: Bits| -> Bits {
			match (u, map) {
				(Some(u), Some(map)) => {
					let anc = cx.anc(q.n, map);
					let x = cx.to_state(u, map);
					if anc.len() <= 10 {
						q.min_over(x, &anc).1
					} else {
						x
					}
				}
				_ => r,
			}
		};
		let x = match l {
			b'c' => done(map.map(|m| cx.to_user(r, m)), r),
			b'e' => {
				if q.n <= 14 {
					q.argmin().1
				} else {
					descend(q, r)
				}
			}
			b'l' => descend(q, r),
			b'f' => done(user(&cx.feas, &mut p), r),
			b'i' => done(user(&cx.infeas, &mut p), r),
			b'p' => done(user(if cx.partial.is_empty() { &cx.infeas } else { &cx.partial }, &mut p), r),
			b't' => {
				// few distinct states over all samples
				let t = wide(&mut Prng(h2(key, 0x71e + (p.below(2))))) & mask;
				done(map.map(|m| cx.to_user(t, m)), t)
			}
			b'g' => !descend(q, r) & mask,
			_ => r,
		};
		let preset = p.below(256) < spec.preset as u64;
		let occ = if p.chance(1, 3) { 1 + p.below(1000) as usize } else { 1 };
		let field = p.below(512) < spec.preset as u64;
		v.push(Ans { x, preset, field, occ });
		let _ = a;
	}
	v
}
