//! What models of the store world should hold.
use std::collections::{BTreeMap, BTreeSet};

pub fn value(kind: u8, b: bool) -> i128 {
	match (kind, b) {
		(0, b) => b as i128,
		(1, true) => 1,
		(1, false) => -1,
		(_, true) => 3,
		(_, false) => -2,
	}
}

/// What a model should hold, the weights as exact integers (those of floating-point models in units of 2^-40).
#[derive(Clone)]
pub struct Rm {
	pub size: usize,
	pub w: BTreeMap<Vec<usize>, i128>,
}
impl Rm {
	pub fn new(dense: bool, n: usize) -> Rm {
		let mut w = BTreeMap::new();
		if dense {
			for i in 0..n {
				w.insert(vec![i], 0);
				for j in 0..i {
					w.insert(vec![j, i], 0);
				}
			}
		}
		Rm { size: if dense { n } else { 0 }, w }
	}
	pub fn key(k: &[usize]) -> Vec<usize> {
		let mut k = k.to_vec();
		k.sort();
		k.dedup();
		k
	}
	/// bits a state must have to be looked at
	pub fn need(&self) -> usize {
		self.w.keys().map(|k| k[k.len() - 1] + 1).max().unwrap_or(0).max(self.size)
	}
	pub fn energy(&self, kind: u8, x: &[bool]) -> i128 {
		self.w.iter().map(|(k, w)| k.iter().fold(*w, |p, i| p * value(kind, x[*i]))).sum()
	}
	pub fn field(&self, kind: u8, x: &[bool]) -> Vec<i128> {
		let mut f = vec![0; x.len()];
		for (k, w) in &self.w {
			for i in k {
				let others = k.iter().filter(|j| *j != i).fold(*w, |p, j| p * value(kind, x[*j]));
				f[*i] += (value(kind, !x[*i]) - value(kind, x[*i])) * others;
			}
		}
		f
	}
	/// What was read from a model, against what it should hold.
	pub fn compare(
		&self,
		dense: bool,
		size: usize,
		nodes: &[usize],
		prods: &[(Vec<usize>, i128)],
		around: &[Vec<Vec<usize>>],
		read: &[i128],
		bad: &mut Vec<String>,
	) {
		for ((k, w), x) in self.w.iter().zip(read) {
			if x != w {
				bad.push(format!("the weight of {:?} is read as {} instead of {}", k, x, w))
			}
		}
		let n = nodes.len();
		if size != n {
			bad.push(format!("its size is {}, it lists {} nodes", size, n))
		}
		let set: BTreeSet<usize> = nodes.iter().cloned().collect();
		if set.len() != n {
			bad.push("it lists a node twice".into())
		}
		if dense && !set.iter().cloned().eq(0..self.size) {
			return bad.push(format!("it lists the nodes {:?} instead of those below {}", nodes, self.size));
		}
		let mut all = BTreeSet::new();
		for (k, w) in prods {
			let v = Rm::key(k);
			match self.w.get(&v) {
				None => bad.push(format!("it lists the product {:?}, to which nothing was ever added", v)),
				Some(x) if x != w => bad.push(format!("the weight of {:?} is {} instead of {}", v, w, x)),
				_ => {}
			}
			for i in &v {
				if !set.contains(i) {
					bad.push(format!("it lists the product {:?}, but not the node {}", v, i))
				}
			}
			all.insert(v);
		}
		if all.len() != prods.len() {
			bad.push("it lists a product twice".into())
		}
		for (k, w) in &self.w {
			// (a product of no weight need not be listed)
			if !all.contains(k) && (dense || *w != 0) {
				bad.push(format!("it does not list the product {:?} of weight {}", k, w));
			}
		}
		let mut want: BTreeMap<usize, BTreeSet<Vec<usize>>> = BTreeMap::new();
		for k in &all {
			for i in k {
				want.entry(*i).or_default().insert(k.clone());
			}
		}
		let used: BTreeSet<usize> = self.w.keys().flatten().cloned().collect();
		for (i, got) in nodes.iter().zip(around) {
			if !used.contains(i) {
				bad.push(format!("it lists the node {}, to which nothing was ever added", i))
			}
			let got: Vec<Vec<usize>> = got.iter().map(|k| Rm::key(k)).collect();
			let set: BTreeSet<Vec<usize>> = got.iter().cloned().collect();
			let want = want.remove(i).unwrap_or_default();
			if set.len() != got.len() || set != want {
				bad.push(format!("around node {} are {:?} instead of {:?}", i, got, want))
			}
		}
	}
}
