//! Seeded generation of cases.
use crate::ast::*;
use crate::model::{is_float, Ctx};
use crate::spec::*;
use simos::{h3, mix, Policy, Prng};

pub struct G {
	pub p: Prng,
	pub mono: u8,
	nv: u64,
	base: u8,
	tiny: i8,
	pub nph: u8,
	php: u64,
	spread: bool,
	/// numbers of many digits
	wide: bool,
	huge: u32,
	/// numbers of very different scales
	jitter: i8,
	/// constraints may have values around what counts as violated
	fine: bool,
	/// high powers
	powers: bool,
}

fn pid(prop: &str) -> u64 {
	prop.bytes().fold(7, |a, b| mix(a ^ b as u64))
}

impl G {
	fn new(seed: u64) -> G {
		G { p: Prng(mix(seed)), mono: 0, nv: 3, base: 0, tiny: 0, nph: 0, php: 0, spread: false, wide: false, huge: 0, jitter: 0, fine: false, powers: false }
	}
	fn below(&mut self, n: u64) -> u64 {
		self.p.below(n)
	}
	fn ch(&mut self, a: u64, b: u64) -> bool {
		self.p.chance(a, b)
	}
	fn pick<T: Copy>(&mut self, v: &[T]) -> T {
		v[self.p.below(v.len() as u64) as usize]
	}
	fn lit(&mut self) -> Lit {
		let n = if self.spread && self.ch(1, 6) {
			self.below(400) as i64 - 200
		} else {
			self.below(25) as i64 - 12
		};
		let big = |p: &mut Prng, b: u64| (p.next() % (2 << b)) as i64 - (1 << b);
		if is_float(self.mono) {
			let j = if self.jitter > 0 { self.below(self.jitter as u64) as i8 } else { 0 };
			if self.wide && self.ch(2, 3) {
				let b = if self.mono == 3 { 10 } else { 30 };
				return Lit(big(&mut self.p, b), 2 - b as i8 + self.tiny - j);
			}
			Lit(n, -2 + self.tiny - j)
		} else if self.huge > 0 && self.ch(3, 4) {
			// too many digits for a double
			let e = if self.mono == 4 { self.below(self.huge as u64 / 2) as i8 } else { 0 };
			Lit(big(&mut self.p, (self.huge as u64).min(58)), e)
		} else if self.wide && matches!(self.mono, 2 | 4) && self.ch(2, 3) {
			let b = self.pick(&[8, 17, 28]);
			Lit(big(&mut self.p, b), 0)
		} else if self.mono == 6 {
			Lit(n % 4, 0)
		} else if self.spread {
			Lit(n, 0)
		} else {
			Lit(n.signum() * ((n.abs() + 1) / 2), 0)
		}
	}
	/// numeric type of an annealer's problem
	fn real(&mut self) -> u8 {
		self.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6])
	}
	fn var(&mut self) -> Ast {
		let i = self.base + self.below(self.nv) as u8;
		if self.ch(3, 10) {
			Ast::Spin(i)
		} else {
			Ast::Bin(i)
		}
	}
	fn atom(&mut self) -> Ast {
		if self.nph > 0 && self.below(100) < self.php {
			return Ast::Ph(self.below(self.nph as u64) as u8);
		}
		if self.ch(1, 8) {
			Ast::Num(self.lit())
		} else {
			self.var()
		}
	}
	fn op(&mut self) -> Op {
		self.pick(&[Op::Add, Op::Sub, Op::Add, Op::Mul])
	}
	/// An expression without constraints of at most this degree.
	pub fn tree(&mut self, depth: u32, deg: u32) -> Ast {
		if deg == 0 {
			return Ast::Num(self.lit());
		}
		if depth == 0 {
			return self.atom();
		}
		let asg = self.ch(1, 4);
		if self.powers && self.ch(1, 5) {
			let k = self.pick(&[3, 4, 5, 6, 7, 8, 9, 11, 13]);
			let v = self.var();
			let b = match self.below(4) {
				0 => v,
				1 => Ast::Neg(bx(v)),
				2 if k <= 6 => sub(v, Ast::Num(Lit(1, 0))),
				3 if k <= 4 => add(v, self.var()),
				_ => v,
			};
			if (b.degree() * k as u32).min(b.live_vars().len() as u32) <= deg {
				return Ast::Pow(asg, bx(b), k);
			}
		}
		match self.below(20) {
			0..=6 => {
				let o = self.pick(&[Op::Add, Op::Sub]);
				Ast::E(o, asg, bx(self.tree(depth - 1, deg)), bx(self.tree(depth - 1, deg)))
			}
			7..=12 if deg >= 2 => {
				let a = 1 + self.below(deg as u64 - 1) as u32;
				Ast::E(Op::Mul, asg, bx(self.tree(depth - 1, a)), bx(self.tree(depth - 1, deg - a)))
			}
			13 | 14 => {
				let o = self.op();
				let l = self.lit();
				Ast::R(o, asg, bx(self.tree(depth - 1, deg)), l)
			}
			15 | 16 => {
				let o = self.op();
				let l = self.lit();
				Ast::L(o, l, bx(self.tree(depth - 1, deg)))
			}
			17 => Ast::Neg(bx(self.tree(depth - 1, deg))),
			18 if deg >= 2 => {
				let k = 2 + self.below(deg as u64 - 1) as u32;
				Ast::Pow(asg, bx(self.tree(depth - 1, deg / k)), k as u8)
			}
			19 => {
				let k = if self.ch(1, 4) { 0 } else { 1 };
				Ast::Pow(asg, bx(self.tree(depth - 1, deg)), k)
			}
			_ => self.atom(),
		}
	}
	/// A term as users write it: coefficient times some variables.
	fn term(&mut self, deg: u32) -> Ast {
		let d = 1 + self.below(deg as u64) as u32;
		let mut a = self.var();
		for _ in 1..d {
			let asg = self.ch(1, 6);
			a = Ast::E(Op::Mul, asg, bx(a), bx(self.var()));
		}
		if self.nph > 0 && self.below(100) < self.php {
			let p = Ast::Ph(self.below(self.nph as u64) as u8);
			a = mul(a, p);
		}
		let l = self.lit();
		match self.below(3) {
			0 => Ast::R(Op::Mul, self.ch(1, 3), bx(a), l),
			1 => Ast::L(Op::Mul, l, bx(a)),
			_ => mul(Ast::Num(l), a),
		}
	}
	fn sum(&mut self, n: u64, deg: u32) -> Ast {
		let mut a = self.term(deg);
		for _ in 1..n {
			let t = self.term(deg);
			let asg = self.ch(1, 4);
			a = Ast::E(if self.ch(1, 4) { Op::Sub } else { Op::Add }, asg, bx(a), bx(t));
		}
		a
	}
	/// Products of three or four different variables each.
	fn products(&mut self, n: u64) -> Ast {
		let mut a = Ast::Num(self.lit());
		for _ in 0..n {
			let k = 3 + self.below(2) as usize;
			let mut vs: Vec<Ast> = vec![];
			for _ in 0..30 {
				let i = self.base + self.below(self.nv) as u8;
				let v = if self.ch(1, 10) { Ast::Spin(i) } else { Ast::Bin(i) };
				if vs.len() < k && !vs.contains(&v) {
					vs.push(v)
				}
			}
			let t = vs.into_iter().reduce(mul).unwrap();
			let t = Ast::R(Op::Mul, self.ch(1, 3), bx(t), self.lit());
			a = Ast::E(if self.ch(1, 4) { Op::Sub } else { Op::Add }, self.ch(1, 4), bx(a), bx(t));
		}
		a
	}
	/// What a constraint says. Degree at most deg. (Of ordinary size, because what counts as satisfied has a scale.)
	fn cexpr(&mut self, deg: u32) -> Ast {
		let keep = (self.tiny, self.wide, self.jitter, self.huge);
		(self.tiny, self.wide, self.jitter, self.huge) = (0, false, 0, 0);
		let c = self.cexpr1(deg);
		(self.tiny, self.wide, self.jitter, self.huge) = keep;
		if self.fine && self.ch(2, 3) {
			// what counts as satisfied lies between 2^-14 and 2^-13
			let l = Lit(self.pick(&[1, 1, 1, 2, 3, -1]), self.pick(&[-15, -14, -14, -13, -13, -12, -10]));
			return if self.ch(1, 2) { Ast::L(Op::Mul, l, bx(c)) } else { Ast::R(Op::Mul, self.ch(1, 2), bx(c), l) };
		}
		c
	}
	fn cexpr1(&mut self, deg: u32) -> Ast {
		let k = 1 + self.below(self.nv.min(4));
		let mut s = self.var();
		for _ in 1..k {
			let v = self.var();
			s = if self.ch(1, 5) { sub(s, v) } else { add(s, v) };
		}
		let c = if self.fine && self.ch(1, 4) {
			Ast::Num(Lit(self.pick(&[1, -1, 3, 5, 1025, 4097]), self.pick(&[-15, -14, -13, -12])))
		} else if self.nph > 0 && self.below(100) < self.php {
			Ast::Ph(self.below(self.nph as u64) as u8)
		} else {
			Ast::Num(Lit(self.below(3) as i64, 0))
		};
		let lin = sub(s, c);
		match self.below(10) {
			0..=4 if deg >= 2 => Ast::Pow(self.ch(1, 4), bx(lin), 2),
			5 if deg >= 2 => mul(self.var(), self.var()),
			6 => self.var(),
			7 => self.tree(2, deg),
			8 if deg >= 2 => mul(self.tree(1, 1), self.tree(1, deg - 1)),
			_ => lin,
		}
	}
	/// A whole problem.
	pub fn problem(&mut self, deg: u32, ncon: u64, npen: u64) -> Ast {
		let mut a = match self.below(6) {
			0 => self.tree(4, deg),
			1 => Ast::Num(self.lit()),
			_ => {
				let n = 1 + self.below(self.nv + 2);
				self.sum(n, deg)
			}
		};
		let mut parts = vec![];
		let apart = ncon > 12 && self.ch(1, 2);
		for _ in 0..ncon {
			let l = if self.mono == 5 { 0 } else { self.below(ncon.max(1)) as u8 };
			let l = if self.ch(1, if apart { 1 } else { 3 }) && self.mono != 5 { parts.len() as u8 } else { l };
			let mut c = Ast::Con(l, bx(self.cexpr(deg)));
			match self.below(8) {
				0 => {
					let x = Lit(1 + self.below(4) as i64, 0);
					c = Ast::L(Op::Mul, x, bx(c));
				}
				1 => {
					let x = Lit(1 + self.below(4) as i64, 0);
					c = Ast::R(Op::Mul, self.ch(1, 2), bx(c), x);
				}
				2 if deg >= 3 && c.degree() < deg => {
					let v = self.var();
					c = mul(c, v);
				}
				_ => {}
			}
			parts.push(c);
		}
		for _ in 0..npen {
			let e = if self.ch(1, 2) && !parts.is_empty() { parts.pop().unwrap() } else { self.tree(2, deg.min(2)) };
			let p = match self.below(3) {
				0 => Ast::Pow(false, bx(sub(self.var(), self.var())), 2.min(deg as u8)),
				1 => self.tree(2, deg),
				_ => {
					let t = self.term(deg);
					t
				}
			};
			let p = if self.ch(1, 8) && self.mono != 5 { add(p, Ast::Con(15, bx(self.cexpr(deg)))) } else { p };
			let mut q = Ast::Pen(bx(e), bx(p));
			if self.ch(1, 5) {
				q = Ast::Neg(bx(q));
			}
			if self.ch(1, 6) && q.degree() < deg {
				let v = self.var();
				q = mul(q, v);
			}
			parts.push(q);
		}
		for c in parts {
			let asg = self.ch(1, 4);
			a = if self.ch(1, 3) { Ast::E(Op::Add, asg, bx(c), bx(a)) } else { Ast::E(Op::Add, asg, bx(a), bx(c)) };
		}
		a
	}
	pub fn policy(&mut self) -> Policy {
		match self.below(8) {
			0 => Policy::NonPreempt,
			1 | 2 => Policy::RandomWalk(self.pick(&[15, 60, 250, 1000])),
			3 | 4 => Policy::Pct(1 + self.below(6) as u32, self.pick(&[1000, 10_000, 60_000, 300_000])),
			5 => Policy::RoundRobin(self.pick(&[23, 97, 401, 2003])),
			_ => {
				let m = self.pick(&[20, 120, 600]);
				Policy::Stall(m, self.pick(&[500, 5_000, 50_000]))
			}
		}
	}
	pub fn variant(&mut self, threads: u64) -> Variant {
		Variant {
			policy: self.policy(),
			sseed: self.p.next() >> 16,
			entropy: self.p.next() >> 16,
			threads: 1 + self.below(threads) as u32,
			garbage: self.pick(&[0, 1, 2, 3, 77, 123]),
			spurious: self.pick(&[0, 0, 20, 90]),
			rand_wake: self.ch(1, 2),
			mem: false,
			eintr: self.pick(&[0, 0, 40, 120]),
			short: self.pick(&[0, 0, 40, 120]),
			only: None,
			skip: 0,
			script: vec![],
		}
	}
	fn phs(&mut self, s: &mut Spec, stages: &[u8]) {
		for _ in 0..self.nph {
			let st = self.pick(stages);
			let l = if is_float(self.mono) {
				Lit(1 + self.below(14) as i64, -2)
			} else {
				Lit(1 + self.below(6) as i64, 0)
			};
			s.ph.push((l, st));
		}
	}
	fn strength(&mut self) -> Lit {
		if is_float(self.mono) {
			let l = self.pick(&[Lit(50, 0), Lit(50, 0), Lit(1, 0), Lit(10, 0), Lit(300, 0), Lit(3, -1), Lit(64, 0)]);
			Lit(l.0, if self.ch(2, 3) { l.1 + self.tiny } else { l.1 })
		} else if matches!(self.mono, 2 | 4) && self.ch(1, 4) {
			self.pick(&[Lit(1_000_000, 0), Lit(3, 30), Lit(12345, 4)])
		} else if self.mono == 6 {
			self.pick(&[Lit(50, 0), Lit(20, 0), Lit(10, 0)])
		} else {
			self.pick(&[Lit(50, 0), Lit(50, 0), Lit(10, 0), Lit(300, 0), Lit(2000, 0), Lit(64, 0)])
		}
	}
	fn plan(&mut self, letters: &str, max: u64) -> String {
		let l = letters.as_bytes();
		let n = 1 + self.below(max);
		(0..n).map(|_| l[self.below(l.len() as u64) as usize] as char).collect()
	}
}

/// Keeps integers far from overflow, and the reference exact.
fn small(s: &Spec) -> bool {
	let ph = s.ph_values();
	let limit = match s.mono {
		1 => 4e5,
		2 | 4 => 1e13,
		3 => 1e12,
		_ => 1e18,
	};
	s.exprs.iter().all(|e| {
		let limit = match s.mono {
			6 => 1000.0 / 3f64.powi(e.degree() as i32),
			2 if s.huge => 2f64.powi(if e.degree() > 2 { 60 - 2 * e.degree() as i32 } else { 58 }),
			4 if s.huge => 2f64.powi(118 - 3 * e.degree() as i32),
			_ => limit,
		};
		let mut b = e.bound(&ph, s.max_strength());
		if s.huge {
			// (a factor of zero may come last)
			b = e.peak(&ph, s.max_strength());
		}
		b < limit && size(e) < 400 + 40 * e.vars().len()
	})
}
fn size(a: &Ast) -> usize {
	let mut n = 0;
	a.walk(&mut |_| n += 1);
	n
}
/// Rough number of monomials times degree: keeps compilation cheap.
fn fits(a: &Ast, maxdeg: u32) -> bool {
	a.degree() <= maxdeg
}

/// High degrees are affordable where there are few terms.
fn towers(a: &Ast) -> bool {
	fits(a, 10) && size(a) < 80 && {
		let mut n = 0;
		a.walk(&mut |x| n += matches!(x, Ast::E(Op::Mul, ..)) as u32 * 2 + matches!(x, Ast::E(Op::Add | Op::Sub, ..)) as u32);
		n <= 34
	}
}

pub fn pipe(prop: &str, seed: u64, i: u64) -> Spec {
	for t in 0.. {
		let s = pipe_try(prop, h3(seed, i, t ^ pid(prop)));
		if small(&s) && s.exprs.iter().all(|e| (fits(e, 6) || towers(e)) && e.live_vars().len() <= 100)
			&& (0..s.exprs.len()).all(|m| !Ctx::new(&s, m).murky())
		{
			return s;
		}
	}
	unreachable!()
}

fn pipe_try(prop: &str, key: u64) -> Spec {
	let mut g = G::new(key);
	let mut s = Spec::new(prop, "pipe", g.p.next() >> 16);
	g.mono = if g.ch(1, 16) { 6 } else { g.below(6) as u8 };
	s.mono = g.mono;
	let dense = prop == "C02" || prop == "C13";
	g.nv = if dense { 1 + g.below(6) } else { g.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 11, 17]) };
	if prop == "C14" && g.ch(1, 2) {
		g.nv = g.pick(&[7, 8, 9, 10, 15, 16, 17, 20]);
	}
	g.base = g.pick(&[0, 0, 3, 20]);
	if prop == "C14" && g.ch(1, 8) {
		g.nv = g.pick(&[31, 33, 63, 64, 65, 66, 80]);
	} else if !dense && g.ch(1, 40) {
		g.nv = g.pick(&[24, 33, 64, 65, 70]);
	}
	if is_float(g.mono) && g.ch(1, 4) {
		g.tiny = if g.mono == 3 { g.pick(&[-20, -14, -8, 8, 14]) } else { g.pick(&[-40, -30, -24, -18, -12, 12, 24]) };
	}
	let even = prop == "C09";
	if is_float(g.mono) && g.ch(if prop == "C04" { 3 } else { 1 }, if prop == "C09" { 1 << 40 } else if prop == "C12" { 30 } else { 10 }) {
		g.fine = true;
	}
	if matches!(g.mono, 2 | 4) && matches!(prop, "C01" | "C02" | "C03" | "C13" | "C14") && g.ch(1, 3) {
		g.huge = if g.mono == 2 { g.pick(&[52, 54, 55, 56]) } else { g.pick(&[52, 56, 60, 80]) };
		s.huge = true;
	}
	g.powers = g.ch(1, if dense { 4 } else { 20 });
	if !even && g.ch(1, 4) {
		g.wide = true;
	}
	if !even && is_float(g.mono) && g.ch(1, 6) {
		g.jitter = if g.mono == 3 { 6 } else { 16 };
	}
	let mut deg = if g.nv > 6 {
		2
	} else {
		match prop {
			"C02" => g.pick(&[2, 3, 3, 4, 4, 5, 6]),
			"C13" => g.pick(&[1, 2, 2, 3, 4, 5]),
			_ => g.pick(&[1, 2, 2, 2, 2, 3, 4]),
		}
	};
	let nmodels = if prop == "C17" && g.ch(1, 3) { 2 } else { 1 };
	let each = if prop == "C17" && g.ch(1, 3) { 1 + g.below(2) as u8 } else { 0 };
	if each > 0 {
		g.nv = g.nv.max(5).min(7);
		deg = g.pick(&[1, 2, 3, 3, 3, 4, 4]);
	}
	// cross-entropy comparison needs degree two and exact arithmetic
	let hashes = prop == "C09" && g.ch(1, 3);
	if hashes {
		deg = deg.min(2);
	}
	let mut ncon = match prop {
		"C04" | "C12" => g.pick(&[1, 2, 2, 3, 3, 4, 5, 8, 12]),
		"C05" | "C03" => g.pick(&[0, 1, 1, 2, 3]),
		"C08" | "C06" | "C07" => g.pick(&[0, 0, 1, 2]),
		_ => g.pick(&[0, 0, 1, 2, 3]),
	};
	if hashes && is_float(g.mono) {
		ncon = 0;
	}
	let npen = if g.ch(1, 3) { 1 + g.below(2) } else { 0 };
	// something there is very much of
	let axis = if dense || hashes || each > 0 || !g.ch(1, 40) { 0 } else { 1 + g.below(6) };
	if axis == 1 && !matches!(g.mono, 1 | 3 | 6) {
		ncon = g.pick(&[15, 17, 24, 33, 40, 65]);
		deg = deg.min(2);
		// (with few variables, the weights cannot be told from the coefficients)
		g.nv = g.pick(&[4, 8, 11, 14]);
	}
	if prop == "C13" {
		g.nph = 1 + g.below(3) as u8;
		g.php = g.pick(&[15, 40, 60]);
		if g.ch(1, 8) {
			g.nph = 4 + g.below(6) as u8;
			g.php = 60;
		}
	} else if g.ch(1, 6) {
		g.nph = 1 + g.below(2) as u8;
		g.php = 20;
	}
	let many = each > 0 && deg > 2 && g.nv > 3 && g.ch(3, 4);
	for _ in 0..nmodels {
		let e = if many {
			let n = 2 + g.below(3);
			g.products(n)
		} else {
			g.problem(deg, ncon, npen)
		};
		s.exprs.push(e);
	}
	if each > 0 {
		let n = 2 + g.below(3) as usize;
		s.exprs.truncate(if each == 2 || g.ch(1, 2) { 1 } else { 2 });
		while s.exprs.len() < n {
			let e = if each == 2 || g.ch(1, 3) {
				s.exprs[0].clone()
			} else if many {
				g.products(3)
			} else {
				g.problem(deg, ncon, npen)
			};
			s.exprs.push(e);
		}
	}
	if dense && g.ch(1, 6) || (matches!(prop, "C01" | "C14") && g.ch(1, 30)) {
		s.exprs = vec![tower(&mut g)];
	}
	if hashes && s.exprs[0].degree() > 2 || (hashes && is_float(g.mono) && !s.exprs[0].labels().is_empty()) {
		// a penalty may have brought in more than asked for
		s.exprs = vec![g.sum(3, 2)];
	}
	if prop == "C13" {
		let st = if g.ch(1, 10) { vec![0u8, 1, 2, 3] } else { vec![1u8, 2, 1, 2, 0] };
		g.phs(&mut s, &st);
		for e in &s.exprs {
			if e.phs().is_empty() {
				// not about feeding: make another
				s.exprs[0] = Ast::Num(Lit(1 << 40, 0));
				return s;
			}
		}
	} else {
		g.phs(&mut s, &[0, 1, 2]);
	}
	s.strength = g.strength();
	if hashes && is_float(g.mono) {
		s.strength = Lit(64, 0);
	}
	s.samples = g.pick(&[1, 2, 3, 4, 5, 8, 8, 13]);
	s.iters = g.pick(&[1, 1, 2, 3]);
	s.gens = g.pick(&[1, 2, 3, 4, 6, 11]);
	s.nans = g.pick(&[(1, 1), (1, 1), (0, 2), (1, 3), (0, 4)]);
	s.preset = g.pick(&[0, 0, 0, 128, 256]);
	s.plan = g.plan("mmrrcetgipflm", 5);
	s.plain = g.mono == 5 && g.ch(1, 2);
	let solves = g.pick(&[1, 1, 2]);
	s.callers = vec![Caller { model: 0, shared: g.ch(1, 2), solves, pool: if g.ch(1, 5) { 1 + g.below(3) as u32 } else { 0 } }];
	let mut vars = vec![g.variant(6)];
	match prop {
		"C02" => {
			s.samples = 1;
			s.iters = 1;
			s.gens = g.pick(&[1, 2]);
			s.callers[0].solves = 1;
			s.callers[0].pool = 0;
			s.plan = g.plan("cri", 2);
			// other hash orders
			for _ in 0..3 {
				let mut v = vars[0].clone();
				v.policy = Policy::NonPreempt;
				v.threads = 1;
				v.entropy = g.p.next() >> 16;
				vars.push(v);
			}
			vars[0].threads = 1;
		}
		"C03" => {
			s.plan = g.plan("mtrripg", 4);
			s.samples = g.pick(&[1, 2, 3, 5, 8, 12, 20, 40]);
			if g.ch(1, 8) {
				s.nans = g.pick(&[(2, 2), (1, 6), (3, 4)]);
			}
			if g.ch(1, 6) {
				s.samples = g.pick(&[1, 2]);
				s.gens = 10 + g.below(21) as u32;
			}
		}
		"C04" => s.plan = g.plan("ippimf", 6),
		"C05" => {
			s.plan = g.plan("iiiifpce", 14);
			s.iters = 1 + g.below(3) as u32;
			s.gens = 1 + g.below(7) as u32;
			if g.ch(1, 5) {
				s.samples = g.pick(&[1, 1, 2]);
				s.gens = g.pick(&[8, 10, 12, 17, 22, 30, 31, 40]);
				s.iters = g.pick(&[1, 2, 3]);
				s.plan = g.plan("iiiiiiip", 14);
			} else if g.ch(1, 8) {
				s.samples = g.pick(&[1, 2]);
				s.gens = g.pick(&[1, 2, 3]);
				s.iters = g.pick(&[8, 10, 11, 16, 24]);
				s.plan = g.plan("iiiiiiip", 14);
			}
		}
		"C12" => {
			s.plan = g.plan("ppiiimcl", 8);
			s.gens = 2 + g.below(10) as u32;
			s.samples = g.pick(&[1, 2, 4]);
			if g.ch(1, 4) {
				s.samples = 1;
				s.gens = g.pick(&[14, 20, 30, 45]);
			}
			s.preset = 0;
		}
		"C13" => {
			s.samples = g.pick(&[1, 2, 3]);
			s.callers[0].solves = 1;
			let mut v = vars[0].clone();
			v.entropy = g.p.next() >> 16;
			vars.push(v);
		}
		"C06" => {
			s.callers[0].solves = 3;
			s.transient = g.ch(1, 2);
			faults(&mut g, &mut s, 0, &[0, 1], &[Fk::GenErr, Fk::SolveErr, Fk::SolveErr, Fk::Panic, Fk::Panic, Fk::GenPanic]);
			noise(&mut g, &mut s, 0);
			if g.ch(1, 2) {
				s.faults.retain(|f| f.solve == 0);
				let mut v = vars[0].clone();
				v.skip = 1;
				vars.push(v);
			}
		}
		"C07" => {
			if g.ch(1, 2) {
				s.transient = g.ch(1, 2);
				faults(&mut g, &mut s, 0, &[0], &[Fk::GenErr, Fk::SolveErr, Fk::Panic, Fk::GenPanic]);
			}
			noise(&mut g, &mut s, 0);
			s.plan = g.plan("mipr", 4);
		}
		"C08" => {
			s.callers[0].solves = 2;
			s.samples = g.pick(&[2, 3, 5, 8, 16, 33, 64]);
			match g.below(4) {
				0 => {
					s.entfail = Some((0, g.below(2) as u32, g.pick(&[0, 0, 0, 1, 2, 5])));
				}
				1 => {
					let mut c = s.callers[0].clone();
					c.shared = true;
					s.callers[0].shared = true;
					for _ in 0..1 + g.below(2) {
						s.callers.push(c.clone());
					}
					if g.ch(1, 3) {
						s.intask = g.pick(&[1, 2, 3, 22, 23, 40, 60]);
					}
				}
				_ => {}
			}
			let mut v = vars[0].clone();
			v.entropy = g.p.next() >> 16;
			vars.push(v);
		}
		"C09" => {
			if g.ch(1, 2) {
				noise(&mut g, &mut s, 0);
			}
			s.plan = g.plan("mttrcet", 4);
			s.nans = g.pick(&[(1, 1), (0, 3), (1, 4)]);
			for k in 0..3 {
				let mut v = g.variant(8);
				v.entropy = vars[0].entropy;
				if hashes {
					v.entropy = g.p.next() >> 16;
				}
				if k == 0 {
					v.threads = 1;
					v.policy = Policy::NonPreempt;
				}
				vars.push(v);
			}
		}
		"C17" => {
			let mut n = 2 + g.below(3);
			s.callers.clear();
			s.transient = g.ch(1, 3);
			if g.ch(1, 3) {
				// solves of different callers on the same worker, one within the other
				s.intask = g.pick(&[1, 2, 2, 3, 22, 22, 23, 40, 60]);
				n += g.below(3);
			}
			let shared = g.ch(2, 3);
			if each > 0 {
				s.each = each;
				s.intask = 0;
				n = s.exprs.len() as u64;
			}
			for i in 0..n {
				let c = Caller {
					model: if each > 0 { i as usize } else { g.below(nmodels) as usize },
					shared: shared && g.ch(3, 4) && each == 0,
					solves: g.pick(&[1, 1, 2]),
					pool: if g.ch(1, 5) && each == 0 { 1 + g.below(3) as u32 } else { 0 },
				};
				s.callers.push(c);
			}
			s.samples = g.pick(&[1, 2, 3, 5]);
			let bad = if g.ch(1, 2) { 1 } else { 0 };
			if bad == 1 {
				let c = g.below(n) as u32;
				faults(&mut g, &mut s, c, &[0, 1], &[Fk::GenErr, Fk::SolveErr, Fk::Panic, Fk::Panic, Fk::GenPanic]);
			}
			for c in 0..n {
				if g.ch(1, 2) {
					noise(&mut g, &mut s, c as u32);
				}
			}
			if s.intask == 0 && s.each == 0 && g.ch(1, 3) {
				// somebody's backend waits for all the others
				let c = g.below(n);
				s.callers[c as usize].pool = 1 + g.below(3) as u32;
				let f = Fault {
					caller: c as u32,
					solve: 0,
					round: g.below((s.iters * s.gens) as u64).min(g.below(3)) as u32,
					sample: g.below(s.samples as u64) as u32,
					kind: Fk::Gate,
					arg: 0,
				};
				s.faults.push(f);
			}
			vars[0].threads = 1 + g.below(4) as u32;
			for c in 0..n {
				let mut v = Variant::plain();
				v.entropy = vars[0].entropy;
				v.only = Some(c as u32);
				vars.push(v);
			}
		}
		_ => {
			if g.ch(1, 4) {
				noise(&mut g, &mut s, 0);
			}
		}
	}
	if matches!(prop, "C03" | "C07" | "C09" | "C08" | "C14") && g.ch(1, if prop == "C03" { 10 } else { 30 }) {
		// many answers in a round
		s.gens = s.gens.min(3);
		s.iters = s.iters.min(2);
		if prop == "C08" || g.ch(1, 3) {
			s.samples = g.pick(&[60, 100, 150]);
		} else {
			s.samples = s.samples.min(3);
			s.nans = g.pick(&[(1, 40), (1, 150), (70, 70), (1, 300)]);
			s.plan = g.plan("rrrm", 3);
		}
		s.faults.retain(|f| f.sample < s.samples && f.round < s.gens * s.iters);
	}
	match axis {
		1 => {
			s.samples = s.samples.min(3);
			s.gens = s.gens.min(4);
			s.iters = s.iters.min(2);
		}
		2 => {
			s.samples = s.samples.min(3);
			s.gens = s.gens.min(2);
			s.iters = 1;
			let n = g.pick(&[3, 4, 5, 6, 8, 9, 12, 17, 33]);
			let k = s.callers.len() as u32;
			for c in s.callers.iter_mut() {
				c.solves = (n / k).max(1);
			}
			let n = s.callers[0].solves;
			if vars.len() == 1 && matches!(prop, "C06" | "C07") && g.ch(2, 3) {
				for f in s.faults.iter_mut() {
					f.solve = g.below(n as u64 - 1) as u32;
				}
				let mut seen = vec![];
				s.faults.retain(|f| {
					let k = (f.caller, f.solve, f.round, f.sample);
					let new = !seen.contains(&k);
					seen.push(k);
					new
				});
			}
		}
		3 => {
			s.samples = g.pick(&[257, 260, 400, 513, 600]);
			s.gens = 1;
			s.iters = s.iters.min(2);
		}
		4 => {
			s.samples = s.samples.min(2);
			if g.ch(1, 2) {
				s.gens = g.pick(&[50, 65, 100, 129, 150]);
				s.iters = 1;
			} else {
				s.iters = g.pick(&[33, 50, 65, 100, 129, 150]);
				s.gens = 1;
			}
			s.plan = g.plan("iiiiiiip", 14);
		}
		5 => {
			for v in vars.iter_mut() {
				if v.only.is_none() && v.threads > 1 {
					v.threads = g.pick(&[7, 8, 9, 12, 16, 17, 24]);
				}
			}
		}
		_ => {}
	}
	if axis > 0 {
		let (sa, ro) = (s.samples, s.gens * s.iters);
		s.faults.retain(|f| f.sample < sa && f.round < ro);
	}
	if s.callers.len() == 1 && !s.callers[0].shared && g.ch(1, 3) {
		s.callers[0].solves = s.callers[0].solves.max(if prop == "C02" || prop == "C13" { 1 } else { 2 });
		for _ in 0..1 + g.below(2) {
			let st = if hashes && is_float(g.mono) { Lit(64, 0) } else { g.strength() };
			s.alter.push((1 + g.below(s.samples as u64 + 2) as u32, 1 + g.below(3) as u32, 1 + g.below(5) as u32, st));
		}
	}
	if !s.alter.is_empty() {
		// nobody else might be there to answer
		s.faults.retain(|f| f.kind != Fk::Empty);
	}
	s.variants = vars;
	// affordable
	let n = (s.exprs.iter().map(|e| e.live_vars().len()).max().unwrap_or(0) + 3) as u32;
	let all: u32 = s.callers.iter().map(|c| c.solves).sum();
	while s.samples * s.iters * s.gens * n * n * all.max(2) > 300_000 {
		if s.gens > 3 {
			s.gens /= 2
		} else if s.iters > 2 {
			s.iters /= 2
		} else if s.samples > 5 {
			s.samples /= 2
		} else {
			break;
		}
		s.faults.retain(|f| f.sample < s.samples);
	}
	s.budget = 800_000_000;
	s
}

/// One product of many variables, and a little around it.
fn tower(g: &mut G) -> Ast {
	let d = g.pick(&[5u8, 6, 7, 7, 8, 9, 9, 10]);
	let mut a = Ast::Num(g.lit());
	if let Ast::Num(l) = &mut a {
		if l.0 == 0 {
			l.0 = 3;
		}
	}
	if g.nph > 0 && d <= 7 && g.ch(1, 3) {
		a = mul(a, Ast::Ph(0));
	}
	let spin = if d <= 6 && g.ch(1, 4) { 1 } else { 0 };
	for k in 0..d {
		let v = if k < spin { Ast::Spin(g.base + k) } else { Ast::Bin(g.base + k) };
		a = mul(a, v);
	}
	g.nv = d as u64;
	for _ in 0..g.below(4) {
		let t = g.term(if d <= 7 { 3 } else { 2 });
		a = if g.ch(1, 2) { add(a, t) } else { add(t, a) };
	}
	a
}

/// One or two failures of a caller.
fn faults(g: &mut G, s: &mut Spec, caller: u32, solves: &[u32], kinds: &[Fk]) {
	let n = g.pick(&[1, 1, 1, 2, 3]);
	for _ in 0..n {
		let round = if g.ch(1, 2) { 0 } else { g.below((s.iters * s.gens) as u64) as u32 };
		let f = Fault {
			caller,
			solve: g.pick(solves),
			round,
			sample: g.below(s.samples as u64) as u32,
			kind: g.pick(kinds),
			arg: 0,
		};
		if !s.faults.iter().any(|x| (x.caller, x.solve, x.round, x.sample) == (f.caller, f.solve, f.round, f.sample)) {
			s.faults.push(f);
		}
	}
	for (i, f) in s.faults.iter_mut().enumerate() {
		f.arg = 1 + i as u64;
	}
}
/// Stalls, nested parallelism, samples without answers.
fn noise(g: &mut G, s: &mut Spec, caller: u32) {
	for _ in 0..1 + g.below(4) {
		let kind = g.pick(&[Fk::Stall, Fk::Stall, Fk::Nested]);
		let f = Fault {
			caller,
			solve: g.below(2) as u32,
			round: g.below((s.iters * s.gens) as u64) as u32,
			sample: g.below(s.samples as u64) as u32,
			kind,
			arg: g.pick(&[1_000, 100_000, 50_000_000, 3_600_000_000_000]),
		};
		s.faults.push(f);
	}
	if s.samples > 1 && s.nans.0 > 0 && g.ch(1, 3) {
		// only one sample of a round may stay empty, so that somebody answers
		s.faults.push(Fault {
			caller,
			solve: g.below(2) as u32,
			round: g.below((s.iters * s.gens) as u64) as u32,
			sample: g.below(s.samples as u64) as u32,
			kind: Fk::Empty,
			arg: 0,
		});
		let mut seen = vec![];
		s.faults.retain(|f| {
			if f.kind != Fk::Empty {
				return true;
			}
			let k = (f.caller, f.solve, f.round);
			if seen.contains(&k) {
				return false;
			}
			seen.push(k);
			true
		});
	}
}

// ---------------------------------------------------------------- annealer
/// Sizes at which numbers of few bits do not overflow.
fn narrow(real: u8, n: usize) -> usize {
	match real {
		5 => n.min(12),
		6 => n.min(3),
		_ => n,
	}
}
fn dense(g: &mut G, n: usize, p: (u64, u64), real: u8) -> Vec<(usize, usize, Lit)> {
	let float = real < 2;
	let mut w = vec![];
	for j in 0..n {
		for i in 0..=j {
			if g.ch(p.0, p.1) || (i == j && g.ch(1, 2)) {
				let mut x = g.below(33) as i64 - 16;
				if x == 0 && g.ch(2, 3) {
					x = 1;
				}
				w.push((i, j, if float { Lit(x, -2) } else { Lit(x, 0) }));
			}
		}
	}
	w
}
/// The same weights, some of them given in several parts.
fn in_parts(g: &mut G, w: Vec<(usize, usize, Lit)>) -> Vec<(usize, usize, Lit)> {
	let mut v = vec![];
	let mut late = vec![];
	for (i, j, l) in w {
		if g.ch(1, 3) {
			let a = g.below(21) as i64 - 10;
			v.push((i, j, Lit(l.0 - a, l.1)));
			late.push((i, j, Lit(a, l.1)));
		} else {
			v.push((i, j, l));
		}
	}
	v.extend(late);
	v
}
fn gapless(n: usize, w: &[(usize, usize, Lit)]) -> bool {
	(0..n).all(|i| w.iter().any(|(a, b, _)| *a == i || *b == i))
}

pub fn ann(prop: &str, seed: u64, i: u64) -> Spec {
	for t in 0.. {
		let mut g = G::new(h3(seed, i, t ^ pid(prop)));
		let s = match prop {
			"C10" => cold(&mut g),
			"C11" => match boltz(&mut g) {
				Some(s) => s,
				None => continue,
			},
			_ => iso(&mut g),
		};
		let a = s.ann.as_ref().unwrap();
		if a.form == 0 || gapless(a.n, &a.w) {
			return s;
		}
	}
	unreachable!()
}

fn cold(g: &mut G) -> Spec {
	let mut s = Spec::new("C10", "cold", g.p.next() >> 16);
	let real = g.real();
	let n = narrow(real, g.pick(&[0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 33, 64, 65, 100, 127, 128, 129, 140]));
	let p = if n <= 12 { g.pick(&[(1, 1), (1, 2), (1, 4)]) } else { g.pick(&[(1, 2), (1, 8), (1, n as u64 / 2)]) };
	let mut w = dense(g, n, p, real);
	// no flip for free: odd self weights, even couplings (in units)
	let strict = g.ch(3, 4);
	if strict {
		for x in w.iter_mut() {
			if x.0 == x.1 {
				x.2 .0 |= 1
			} else {
				x.2 .0 &= !1
			}
		}
		for k in 0..n {
			if !w.iter().any(|x| x.0 == k && x.1 == k) {
				let v = g.below(16) as i64 * 2 - 15;
				w.push((k, k, Lit(v, if real < 2 { -2 } else { 0 })));
			}
		}
	}
	if g.ch(1, 4) {
		w = in_parts(g, w);
	}
	let form = if n == 0 || n > 33 { 0 } else { g.pick(&[0, 0, 1, 2]) };
	let rng = if real == 6 { g.pick(&[0, 1]) } else { g.pick(&[0, 0, 1, 2, 3, 4, 5]) };
	// degenerate streams contain zeros, which accept whatever has a chance at all
	let hot = if rng < 2 { g.pick(&[400i64, 1000, 100_000]) } else { g.pick(&[8_000, 100_000]) };
	let beta = match g.below(4) {
		0 => Beta::Range(1 + g.below(40) as usize, Lit(hot, 0), Lit(hot * 2, 0)),
		1 => Beta::Sched(vec![Lit(hot, 0)]),
		_ => Beta::Sched((0..1 + g.below(60)).map(|_| Lit(hot, 0)).collect()),
	};
	let steps = match &beta {
		Beta::Range(k, _, _) => *k,
		Beta::Sched(v) => v.len(),
		Beta::Count(k) => *k,
	};
	// long enough to be sure to have arrived, or as long as can be afforded
	let q = if real < 2 { 4.0 } else { 1.0 };
	let range: f64 = w.iter().map(|x| x.2.f().abs() * q).sum();
	let mut sweeps = g.pick(&[0, 1, 1, 2, 10, 40]);
	let mut runs = g.pick(&[1, 2, 4]);
	if strict && g.ch(2, 3) {
		sweeps = (range as usize + 3) / steps.max(1) + 1;
	}
	let per = n * if strict { 40 } else { n.max(1) * 60 } * if form > 0 { n.max(1) } else { 1 };
	while sweeps * steps * runs * per > 150_000_000 {
		if runs > 1 {
			runs /= 2
		} else {
			sweeps /= 2
		}
	}
	s.ann = Some(Ann { n, w, form, real, beta, sweeps, runs, rng, tasks: 1, share: 0, copies: 1, other: None, giveup: 0 });
	s.budget = 4_000_000_000;
	let mut v = g.variant(1);
	v.policy = Policy::NonPreempt;
	s.variants = vec![v];
	s
}

/// Sweeps after which sequential single-flip dynamics at this temperature have forgotten any start.
fn mix_sweeps(n: usize, w: &[(usize, usize, Lit)], beta: f64, max: usize) -> Option<usize> {
	let m = 1usize << n;
	let e: Vec<f64> = (0..m)
		.map(|x| w.iter().filter(|t| x >> t.0 & 1 == 1 && x >> t.1 & 1 == 1).map(|t| t.2.f()).sum())
		.collect();
	let e0 = e.iter().cloned().fold(f64::INFINITY, f64::min);
	let mut p: Vec<f64> = e.iter().map(|x| (-(x - e0) * beta).exp()).collect();
	let z: f64 = p.iter().sum();
	p.iter_mut().for_each(|x| *x /= z);
	let mut worst = 0;
	for start in 0..m {
		let mut d = vec![0.0; m];
		d[start] = 1.0;
		let mut k = 0;
		loop {
			let tv: f64 = d.iter().zip(&p).map(|(a, b)| (a - b).abs()).sum::<f64>() / 2.0;
			if tv < 1e-4 {
				break;
			}
			if k == max {
				return None;
			}
			k += 1;
			for i in 0..n {
				let mut nd = vec![0.0; m];
				for x in 0..m {
					let y = x ^ 1 << i;
					let a = (-(e[y] - e[x]) * beta).exp().min(1.0);
					nd[y] += d[x] * a;
					nd[x] += d[x] * (1.0 - a);
				}
				d = nd;
			}
		}
		worst = worst.max(k);
	}
	Some(worst)
}

fn boltz(g: &mut G) -> Option<Spec> {
	let mut s = Spec::new("C11", "boltz", g.p.next() >> 16);
	let real = g.below(5) as u8;
	let float = real < 2;
	let zero = g.ch(1, 8);
	// states of small probability, in problems of many equal parts
	let rare = !zero && g.ch(1, 4);
	let n = if zero { g.pick(&[1, 3, 7, 8, 9, 13, 63, 64, 65, 70]) } else if rare { 1 + g.below(2) as usize } else { 1 + g.below(4) as usize };
	let mut copies = if zero { 1 } else if rare { g.pick(&[10, 16, 24, 64]) / n } else { g.pick(&[1, 1, 3, 8, 17, 33]) };
	let mut w = vec![];
	for j in 0..n {
		for i in 0..=j {
			if g.ch(3, 4) {
				let x = if rare {
					let x = Lit(g.pick(&[7, 8, 9, 6, 5, -7, -8, -6, 1, -2]), 0);
					if float && g.ch(1, 2) { Lit(x.0 * 2 + 1, x.1 - 1) } else { x }
				} else if float {
					Lit(g.below(13) as i64 - 6, -1)
				} else {
					Lit(g.below(5) as i64 - 2, 0)
				};
				w.push((i, j, x));
			}
		}
	}
	if !zero && !w.iter().any(|x| x.2 .0 != 0) {
		w.push((0, 0, Lit(2, 0)));
	}
	if g.ch(1, 4) {
		w = in_parts(g, w);
	}
	let form = if zero { 0 } else { g.pick(&[0, 0, 1, 2]) };
	let (lo, hi) = if float {
		(g.pick(&[Lit(1, -3), Lit(1, -2), Lit(1, -1)]), if rare { Lit(1, 0) } else { g.pick(&[Lit(1, -1), Lit(3, -2), Lit(1, 0), Lit(3, -1), Lit(2, 0)]) })
	} else {
		(Lit(1, 0), if rare { Lit(1, 0) } else { g.pick(&[Lit(1, 0), Lit(2, 0)]) })
	};
	let mut steps = g.pick(&[1usize, 2, 3, 6]);
	let mut sweeps = 0;
	let kind = g.below(5);
	if !zero {
		let need = mix_sweeps(n, &w, hi.f(), 14)? * 3;
		sweeps = need.max(3);
		if kind >= 2 && g.ch(1, 3) {
			// many steps of few sweeps
			steps = 2 * need.max(3);
			sweeps = 1 + g.below(2) as usize;
		}
		if kind == 1 {
			steps = 1;
		}
	}
	let beta = match kind {
		0 => Beta::Range(steps.clamp(2, 6), lo, hi),
		1 => Beta::Range(1, hi, hi),
		_ => Beta::Sched((0..steps).map(|k| if k * 2 < steps && steps > 1 { lo } else { hi }).collect()),
	};
	if form > 0 {
		copies = copies.min(4);
	}
	// (a flip looks at all the others)
	let cost = |copies: usize| (sweeps * steps * n * copies * (n * copies + 6) / 8).max(40) * if form > 0 { 3 } else { 1 };
	while copies > 1 && (cost(copies) * 6_000 / copies > 3_000_000) {
		copies = copies * 2 / 3;
	}
	let updates = cost(copies);
	// mostly many problems, sometimes many samples
	let most = if rare { 3_000_000 } else if g.ch(1, 8) { 4_000_000 } else { 1_000_000 };
	let runs = if zero { (2 * most / (n * n + 100)).clamp(1_500, 20_000) } else { (most / updates).clamp(6_000 / copies, if rare { 60_000 } else { 20_000 }) };
	let w = w.into_iter().flat_map(|x| (0..copies).map(move |k| (x.0 * copies + k, x.1 * copies + k, x.2))).collect();
	let n = n * copies;
	s.ann = Some(Ann { n, w, form, real, beta, sweeps, runs, rng: g.pick(&[0, 1]), tasks: 1, share: 1, copies, other: None, giveup: 0 });
	s.budget = 20_000_000_000;
	let mut v = g.variant(1);
	v.policy = Policy::NonPreempt;
	s.variants = vec![v];
	Some(s)
}

fn iso(g: &mut G) -> Spec {
	let mut s = Spec::new("C16", "iso", g.p.next() >> 16);
	let real = g.real();
	let n = narrow(real, g.pick(&[0, 1, 2, 3, 5, 8, 9, 12, 17, 31]));
	let pr = g.pick(&[(1, 1), (1, 2), (1, 4)]);
	let mut w = dense(g, n, pr, real);
	let mut other = if g.ch(2, 3) {
		let n = if g.ch(3, 4) { n } else { narrow(real, g.pick(&[0, 1, 2, 3, 5, 8, 9, 12, 17, 31])) };
		let mut w2 = if g.ch(1, 3) { w.iter().filter(|x| x.0 < n && x.1 < n).cloned().collect() } else { dense(g, n, pr, real) };
		let k = if real >= 5 { 0 } else { g.pick(&[0, 0, -3, 4, 7]) };
		for x in w2.iter_mut() {
			if real < 2 {
				x.2 .1 += k;
			} else {
				x.2 .0 *= 1 << k.max(0);
			}
		}
		Some((n, w2))
	} else {
		None
	};
	let mut form = if n == 0 || n > 20 { 0 } else { g.pick(&[0, 0, 1, 2]) };
	if other.as_ref().map_or(false, |o| o.0 == 0 || o.0 > 20 || !gapless(o.0, &o.1)) {
		form = 0;
	}
	if g.ch(1, 4) {
		w = in_parts(g, w);
		other = other.map(|o| (o.0, in_parts(g, o.1)));
	}
	let float = real < 2;
	s.budget = 1_000_000_000;
	let beta = match g.below(4) {
		0 => Beta::Range(
			1 + g.below(8) as usize,
			if float { Lit(1, -3) } else { Lit(1, 0) },
			if float { Lit(3, 0) } else { Lit(2, 0) },
		),
		1 => Beta::Sched((0..1 + g.below(8)).map(|k| Lit(1 + k as i64, if float { -2 } else { 0 })).collect()),
		_ => Beta::Count(1 + g.below(8) as usize),
	};
	s.ann = Some(Ann {
		n,
		w,
		form,
		real,
		beta,
		sweeps: g.pick(&[1, 2, 4]),
		runs: 1 + g.below(3) as usize,
		rng: g.pick(&[0, 1, 4]),
		tasks: 1 + g.below(4) as usize,
		share: g.below(4) as u8,
		copies: 1,
		other,
		giveup: if g.ch(1, 4) { g.pick(&[1, 4, 20, 100]) } else { 0 },
	});
	let mut v0 = g.variant(1);
	v0.policy = Policy::NonPreempt;
	let mut vars = vec![v0.clone()];
	// alone, one by one
	for t in 0..s.ann.as_ref().unwrap().tasks {
		let mut v = Variant::plain();
		v.entropy = g.p.next() >> 16;
		v.garbage = g.pick(&[0, 1, 3, 9]);
		v.only = Some(t as u32);
		if s.ann.as_ref().unwrap().runs > 1 && g.ch(1, 2) {
			let mut v = v.clone();
			v.skip = 1 + g.below(s.ann.as_ref().unwrap().runs as u64 - 1) as u32;
			vars.push(v);
		}
		vars.push(v);
	}
	for _ in 0..2 {
		vars.push(g.variant(1));
	}
	s.variants = vars;
	s
}

// ---------------------------------------------------------------- whole
/// Small problems for the default solver.
pub fn e2e(prop: &str, seed: u64, i: u64) -> Spec {
	for t in 0.. {
		let mut g = G::new(h3(seed, i, t ^ pid(prop)));
		let mut s = Spec::new("C15", "e2e", g.p.next() >> 16);
		g.mono = if g.ch(1, 16) { 6 } else { g.below(6) as u8 };
		s.mono = g.mono;
		g.nv = g.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6]);
		g.base = g.pick(&[0, 2]);
		g.spread = g.ch(1, 3);
		let float = is_float(g.mono);
		if float && g.ch(1, 3) {
			// another scale of the whole problem
			g.tiny = if g.mono == 3 { g.pick(&[-20, -12, -6, 6, 10]) } else { g.pick(&[-60, -40, -34, -20, -12, -6, 6, 10, 30]) };
		}
		let kind = g.below(6);
		if g.ch(1, 10) && g.mono != 6 {
			wide(&mut g, &mut s);
			return s;
		}
		let mut e = if kind == 0 && g.ch(1, 4) {
			Ast::Num(g.lit())
		} else {
			let n = 1 + g.below(2 * g.nv + 2);
			g.sum(n, 2)
		};
		if g.nv <= 4 && g.ch(1, 6) {
			let k = 1 + g.below(2);
			let t = g.sum(k, 3);
			e = add(e, t);
		}
		s.strength = Lit(50, 0);
		if kind >= 4 {
			// constraints that weigh more than the objective
			let nc = 1 + g.below(2);
			g.tiny = 0;
			g.spread = false;
			e = Ast::Num(Lit(0, 0));
			for _ in 0..1 + g.below(3) {
				let l = Lit(g.below(5) as i64 - 2, 0);
				let (a, b) = (g.var(), g.var());
				let t = if g.ch(1, 2) { mul(a, b) } else { a };
				e = add(e, Ast::L(Op::Mul, l, bx(t)));
			}
			for c in 0..nc {
				let k = 1 + g.below(3);
				let mut x = g.var();
				for _ in 1..k {
					x = add(x, g.var());
				}
				let x = sub(x, Ast::Num(Lit(g.below(2) as i64, 0)));
				let l = if g.mono == 5 { 0 } else { c as u8 };
				e = add(e, Ast::Con(l, bx(Ast::Pow(false, bx(x), 2))));
			}
		}
		s.exprs = vec![e];
		s.samples = 16;
		s.iters = 10;
		s.gens = 30;
		s.attempts = 6;
		let n = g.pick(&[1, 1, 2]);
		for _ in 0..n {
			s.callers.push(Caller { model: 0, shared: g.ch(1, 2), solves: g.pick(&[1, 2]), pool: 0 });
		}
		s.plain = g.mono == 5 && g.ch(1, 2);
		s.budget = 2_000_000_000;
		let mut v = g.variant(6);
		if v.policy != Policy::NonPreempt {
			// annealing takes many steps
			v.policy = match v.policy {
				Policy::RandomWalk(m) => Policy::RandomWalk(m * 40),
				Policy::RoundRobin(m) => Policy::RoundRobin(m * 40),
				Policy::Stall(m, w) => Policy::Stall(m * 40, w * 40),
				Policy::Pct(d, l) => Policy::Pct(d, l * 10),
				p => p,
			};
		}
		s.variants = vec![v];
		if (is_float(s.mono) || small(&s)) && !Ctx::new(&s, 0).murky() && s.exprs[0].degree() <= 3 && !(g.spread && s.exprs[0].degree() > 2) {
			return s;
		}
	}
	unreachable!()
}

/// More variables than luck can set right, but nothing to get stuck in: every variable is wanted at one value, whatever
/// its neighbours do.
fn wide(g: &mut G, s: &mut Spec) {
	let n = 10 + g.below(5);
	let unit = if !is_float(g.mono) {
		0
	} else if g.mono == 3 {
		g.pick(&[-2, 0, -20, -12, 6, 10])
	} else {
		g.pick(&[-2, 0, 0, -60, -40, -34, -20, -12, 6, 10, 30])
	};
	let mut e = Ast::Num(Lit(g.below(5) as i64, unit));
	// (1, 2 or a few of each)
	let most = g.pick(&[1, 2, 4]);
	let mut left: Vec<i64> = vec![];
	for k in 0..n {
		let h = (6 + g.below(6) as i64) * most;
		left.push(h - 3 * most);
		let h = if g.ch(1, 2) { h } else { -h };
		e = add(e, Ast::L(Op::Mul, Lit(h, unit), bx(Ast::Bin(k as u8))));
	}
	for _ in 0..g.below(n + 1) {
		let (i, j) = (g.below(n) as usize, g.below(n) as usize);
		let x = 1 + g.below(most as u64) as i64;
		if i != j && left[i] > x && left[j] > x {
			left[i] -= x;
			left[j] -= x;
			let x = if g.ch(1, 2) { x } else { -x };
			e = add(e, Ast::L(Op::Mul, Lit(x, unit), bx(mul(Ast::Bin(i as u8), Ast::Bin(j as u8)))));
		}
	}
	s.exprs = vec![e];
	s.strength = Lit(50, 0);
	s.samples = 8;
	s.iters = 10;
	s.gens = 30;
	s.attempts = 6;
	s.callers.push(Caller { model: 0, shared: true, solves: 1, pool: 0 });
	s.budget = 2_000_000_000;
	let mut v = g.variant(6);
	v.policy = match v.policy {
		Policy::NonPreempt | Policy::Script => Policy::NonPreempt,
		_ => Policy::RandomWalk(g.pick(&[40_000, 400_000])),
	};
	s.variants = vec![v];
}

/// A history of operations on models, states and solutions.
fn store(prop: &str, seed: u64, i: u64) -> Spec {
	let mut g = G::new(h3(seed, i, pid(prop)));
	let mut s = Spec::new(prop, "store", g.p.next() >> 16);
	let real = g.below(5) as u8;
	let tasks = g.pick(&[1, 1, 2, 3, 4]);
	let form = g.pick(&[0, 0, 1, 2]);
	let mut st = Store {
		node: g.below(3) as u8,
		form,
		real,
		n: if g.ch(1, 25) { g.pick(&[31, 33, 64, 65, 100, 129, 257]) } else { g.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17]) },
		tasks,
		ops: vec![],
	};
	// what there is to do, often only some of it
	let mut kinds: Vec<u8> = vec![0, 1, 1, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 10, 10, 11, 12, 12, 12, 13, 13, 13, 14, 14, 15, 16, 17];
	kinds.extend(&[17, 18, 19, 20, 20, 21, 22, 22, 22, 23, 23, 24, 24, 26, 26, 26, 27, 28, 29, 29, 31, 32]);
	if g.ch(1, 2) {
		let drop: Vec<u8> = (0..g.below(12)).map(|_| g.below(33) as u8).collect();
		kinds.retain(|k| !drop.contains(k));
	}
	let scale = if real < 2 { g.pick(&[-2, -2, -2, 0, 20, -40]) } else { 0 };
	let huge = real > 2 && g.ch(1, 2);
	for task in 0..=tasks {
		let len = if st.n > 30 { 2 + g.below(12) } else if task == 0 { 4 + g.below(20) } else { g.pick(&[5, 15, 40, 90]) };
		if task == 0 {
			for code in [0, 10, 21] {
				st.ops.push(SOp { task, code, a: 0, b: g.below(1 << 20) as u32, c: g.below(1 << 20) as u32, w: Lit(1, 0) });
			}
		}
		for _ in 0..len {
			let mut l = g.below(33) as i64 - 16;
			if l == 0 && g.ch(3, 4) {
				l = 1
			}
			st.ops.push(SOp {
				task,
				code: g.pick(&kinds),
				a: g.below(1 << 20) as u32,
				b: g.below(1 << 20) as u32,
				c: g.below(1 << 20) as u32,
				w: Lit(l, scale),
			});
		}
	}
	if huge {
		// too many digits for a double
		let adds = st.ops.iter().filter(|o| matches!(o.code, 1 | 26)).count().max(1);
		let bits = adds.ilog2() + 2 + if st.node == 2 { 8 } else { 2 };
		let b = if real == 3 { 62 - bits.min(40) } else { 61 };
		for o in st.ops.iter_mut() {
			o.w = Lit((g.p.next() % (2 << b)) as i64 - (1 << b), if real == 4 { g.below(40) as i8 } else { 0 });
		}
	}
	s.store = Some(st);
	s.variants = (0..2).map(|_| g.variant(1)).collect();
	s.budget = 400_000_000;
	s
}

/// Properties decided with every load and store instrumented (as in which.sh).
pub fn fine_grained(prop: &str) -> bool {
	matches!(prop, "C06" | "C07" | "C08" | "C09" | "C16" | "C17" | "C21")
}

pub fn make(prop: &str, seed: u64, i: u64) -> Spec {
	let mut s = any(prop, seed, i);
	if fine_grained(prop) {
		let mut p = Prng(h3(seed, i, 0xacce55));
		for v in s.variants.iter_mut() {
			v.mem = v.policy != Policy::NonPreempt && p.below(5) < 2;
		}
	}
	s
}
fn any(prop: &str, seed: u64, i: u64) -> Spec {
	match prop {
		"C10" | "C11" | "C16" => ann(prop, seed, i),
		"C15" => e2e(prop, seed, i),
		"C21" => store(prop, seed, i),
		_ => pipe(prop, seed, i),
	}
}
