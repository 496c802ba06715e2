//! Small linear algebra and landscapes.
use crate::ast::Bits;

/// A quadratic problem as seen by a backend.
#[derive(Clone, Debug, PartialEq)]
pub struct Quad {
	pub n: usize,
	/// index j*(j+1)/2+i, i<=j
	pub w: Vec<f64>,
	/// the same in integers, if they are
	pub wi: Vec<i128>,
}
impl Quad {
	pub fn energy_i(&self, x: Bits) -> Option<i128> {
		if self.wi.is_empty() {
			return None;
		}
		let mut e = 0;
		let mut k = 0;
		for j in 0..self.n {
			for i in 0..=j {
				if x >> j & 1 == 1 && x >> i & 1 == 1 {
					e += self.wi[k + i];
				}
			}
			k += j + 1;
		}
		Some(e)
	}
	pub fn flip_i(&self, x: Bits, i: usize) -> Option<i128> {
		if self.wi.is_empty() {
			return None;
		}
		let at = |i: usize, j: usize| self.wi[if i < j { j * (j + 1) / 2 + i } else { i * (i + 1) / 2 + j }];
		let d = (0..self.n).filter(|j| *j != i && x >> *j & 1 == 1).map(|j| at(i, j)).sum::<i128>() + at(i, i);
		Some(if x >> i & 1 == 1 { -d } else { d })
	}
	pub fn min_over_i(&self, x: Bits, free: &[usize]) -> Option<i128> {
		let mut x = x;
		for &i in free {
			x &= !(1 << i);
		}
		let mut e = self.energy_i(x)?;
		let mut b = e;
		for g in 1..(1u64 << free.len()) {
			let i = free[g.trailing_zeros() as usize];
			e += self.flip_i(x, i)?;
			x ^= 1 << i;
			b = b.min(e);
		}
		Some(b)
	}
	pub fn at(&self, i: usize, j: usize) -> f64 {
		let (i, j) = if i < j { (i, j) } else { (j, i) };
		self.w[j * (j + 1) / 2 + i]
	}
	pub fn energy(&self, x: Bits) -> f64 {
		let mut e = 0.0;
		let mut k = 0;
		for j in 0..self.n {
			if x >> j & 1 == 0 {
				k += j + 1;
				continue;
			}
			for i in 0..j {
				if x >> i & 1 == 1 {
					e += self.w[k + i];
				}
			}
			e += self.w[k + j];
			k += j + 1;
		}
		e
	}
	/// energy(x ^ 1<<i) - energy(x)
	pub fn flip(&self, x: Bits, i: usize) -> f64 {
		let mut d = self.at(i, i);
		for j in 0..self.n {
			if j != i && x >> j & 1 == 1 {
				d += self.at(i, j);
			}
		}
		if x >> i & 1 == 1 {
			-d
		} else {
			d
		}
	}
	pub fn scale(&self) -> f64 {
		self.w.iter().map(|w| w.abs()).sum::<f64>()
	}
	pub fn argmin(&self) -> (f64, Bits) {
		let mut x: Bits = 0;
		let mut e = 0.0;
		let mut b = (0.0, 0 as Bits);
		for g in 1..(1u64 << self.n) {
			let i = g.trailing_zeros() as usize;
			e += self.flip(x, i);
			x ^= 1 << i;
			if e < b.0 {
				b = (e, x);
			}
		}
		b
	}
	/// Minimum over the bits in `free` with the others as in x.
	pub fn min_over(&self, x: Bits, free: &[usize]) -> (f64, Bits) {
		let mut x = x;
		for &i in free {
			x &= !(1 << i);
		}
		let mut e = self.energy(x);
		let mut b = (e, x);
		for g in 1..(1u64 << free.len()) {
			let i = free[g.trailing_zeros() as usize];
			e += self.flip(x, i);
			x ^= 1 << i;
			if e < b.0 {
				b = (e, x);
			}
		}
		(self.energy(b.1), b.1)
	}
}

/// Least squares: y ~ sum a_k cols[k]. Returns coefficients (dependent columns get 0), whether all
/// columns are independent, the largest residual, and per coefficient how much an error of one in every
/// value may change it.
pub fn lsq(cols: &[Vec<f64>], y: &[f64]) -> (Vec<f64>, bool, f64, Vec<f64>) {
	let m = y.len();
	let k = cols.len();
	let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
	let mut q: Vec<Option<Vec<f64>>> = vec![];
	let mut r = vec![vec![0.0; k]; k];
	let mut unique = true;
	for c in 0..k {
		let mut v = cols[c].clone();
		let n0 = dot(&v, &v).sqrt();
		for _ in 0..2 {
			for p in 0..c {
				if let Some(qp) = &q[p] {
					let d = dot(qp, &v);
					r[p][c] += d;
					for i in 0..m {
						v[i] -= d * qp[i];
					}
				}
			}
		}
		let n = dot(&v, &v).sqrt();
		if n0 == 0.0 || n < 1e-6 * n0 {
			q.push(None);
			unique = false;
		} else {
			r[c][c] = n;
			for x in v.iter_mut() {
				*x /= n;
			}
			q.push(Some(v));
		}
	}
	// y = Q t, R a = t
	let mut t = vec![0.0; k];
	let mut rest = y.to_vec();
	for _ in 0..2 {
		for c in 0..k {
			if let Some(qc) = &q[c] {
				let d = dot(qc, &rest);
				t[c] += d;
				for i in 0..m {
					rest[i] -= d * qc[i];
				}
			}
		}
	}
	let mut a = vec![0.0; k];
	for c in (0..k).rev() {
		if q[c].is_none() {
			continue;
		}
		let mut s = t[c];
		for d in c + 1..k {
			s -= r[c][d] * a[d];
		}
		a[c] = s / r[c][c];
	}
	let mut res = 0f64;
	for i in 0..m {
		let v: f64 = (0..k).map(|c| a[c] * cols[c][i]).sum();
		res = res.max((v - y[i]).abs());
	}
	if res.is_nan() {
		res = f64::INFINITY;
	}
	// rows of the pseudo-inverse
	let mut amp = vec![0.0; k];
	for c in 0..k {
		if q[c].is_none() {
			continue;
		}
		// solve for row c of R^-1, column by column: R^-1 e_d
		let mut row = vec![0.0; k];
		for d in c..k {
			if q[d].is_none() {
				continue;
			}
			let mut s = if d == c { 1.0 } else { 0.0 };
			for e in c..d {
				s -= row[e] * r[e][d];
			}
			row[d] = s / r[d][d];
		}
		for i in 0..m {
			let v: f64 = (c..k).filter_map(|d| q[d].as_ref().map(|qd| row[d] * qd[i])).sum();
			amp[c] += v.abs();
		}
	}
	(a, unique, res, amp)
}

/// Upper tail of the chi-square distribution (regularised incomplete gamma), as log10.
pub fn chi2_log10_sf(x: f64, df: f64) -> f64 {
	let a = df / 2.0;
	let x = x / 2.0;
	if x <= 0.0 {
		return 0.0;
	}
	let lg = lgamma(a);
	if x < a + 1.0 {
		let mut s = 1.0 / a;
		let mut t = s;
		let mut n = a;
		for _ in 0..10000 {
			n += 1.0;
			t *= x / n;
			s += t;
			if t < s * 1e-16 {
				break;
			}
		}
		let p = s * (-x + a * x.ln() - lg).exp();
		return (1.0 - p).max(1e-300).log10();
	}
	// continued fraction (Lentz)
	let mut b = x + 1.0 - a;
	let mut c = 1e300;
	let mut d = 1.0 / b;
	let mut h = d;
	for i in 1..10000 {
		let an = -(i as f64) * (i as f64 - a);
		b += 2.0;
		d = an * d + b;
		if d.abs() < 1e-300 {
			d = 1e-300
		}
		c = b + an / c;
		if c.abs() < 1e-300 {
			c = 1e-300
		}
		d = 1.0 / d;
		let del = d * c;
		h *= del;
		if (del - 1.0).abs() < 1e-15 {
			break;
		}
	}
	(-x + a * x.ln() - lg + h.ln()) / std::f64::consts::LN_10
}

pub fn lgamma(x: f64) -> f64 {
	// Lanczos
	const G: [f64; 9] = [
		0.99999999999980993,
		676.5203681218851,
		-1259.1392167224028,
		771.32342877765313,
		-176.61502916214059,
		12.507343278686905,
		-0.13857109526572012,
		9.9843695780195716e-6,
		1.5056327351493116e-7,
	];
	if x < 0.5 {
		return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).ln() - lgamma(1.0 - x);
	}
	let x = x - 1.0;
	let mut a = G[0];
	let t = x + 7.5;
	for (i, g) in G.iter().enumerate().skip(1) {
		a += g / (x + i as f64);
	}
	0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

#[test]
fn chi2() {
	// chi2 sf(30, 10) = 8.566e-4
	assert!((chi2_log10_sf(30.0, 10.0) - (8.566e-4f64).log10()).abs() < 1e-3);
	assert!((chi2_log10_sf(5.0, 10.0) - (0.8911780f64).log10()).abs() < 1e-4);
}
