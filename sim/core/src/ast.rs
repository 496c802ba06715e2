//! The harness' own expressions: what a user writes, with an independent meaning.
use std::fmt::Write;

/// An assignment, one bit per variable.
pub type Bits = u128;

/// n * 2^e
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lit(pub i64, pub i8);
impl Lit {
	pub fn f(self) -> f64 {
		self.0 as f64 * (2f64).powi(self.1 as i32)
	}
	pub fn i(self) -> i128 {
		if self.1 >= 0 {
			(self.0 as i128) << self.1
		} else {
			self.f() as i128
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
	Add,
	Sub,
	Mul,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
	Num(Lit),
	Bin(u8),
	Spin(u8),
	Ph(u8),
	/// operator between expressions; `true`: the assigning form
	E(Op, bool, Box<Ast>, Box<Ast>),
	/// expression op number; `true`: the assigning form
	R(Op, bool, Box<Ast>, Lit),
	/// number op expression
	L(Op, Lit, Box<Ast>),
	Neg(Box<Ast>),
	Pow(bool, Box<Ast>, u8),
	Con(u8, Box<Ast>),
	Pen(Box<Ast>, Box<Ast>),
}
use Ast::*;

pub fn bx(a: Ast) -> Box<Ast> {
	Box::new(a)
}
pub fn add(a: Ast, b: Ast) -> Ast {
	E(Op::Add, false, bx(a), bx(b))
}
pub fn sub(a: Ast, b: Ast) -> Ast {
	E(Op::Sub, false, bx(a), bx(b))
}
pub fn mul(a: Ast, b: Ast) -> Ast {
	E(Op::Mul, false, bx(a), bx(b))
}

impl Ast {
	/// (expression, penalty) at an assignment.
	pub fn ev(&self, x: Bits, ph: &[f64], w: &[f64]) -> (f64, f64) {
		fn op(o: Op, a: f64, b: f64) -> f64 {
			match o {
				Op::Add => a + b,
				Op::Sub => a - b,
				Op::Mul => a * b,
			}
		}
		match self {
			Num(l) => (l.f(), 0.0),
			Bin(i) => ((x >> i & 1) as f64, 0.0),
			Spin(i) => ((x >> i & 1) as f64 * 2.0 - 1.0, 0.0),
			Ph(i) => (ph[*i as usize], 0.0),
			E(o, _, a, b) => {
				let (a, b) = (a.ev(x, ph, w), b.ev(x, ph, w));
				(op(*o, a.0, b.0), a.1 + b.1)
			}
			R(o, _, a, l) => {
				let a = a.ev(x, ph, w);
				(op(*o, a.0, l.f()), a.1)
			}
			L(o, l, a) => {
				let a = a.ev(x, ph, w);
				(op(*o, l.f(), a.0), a.1)
			}
			Neg(a) => {
				let a = a.ev(x, ph, w);
				(-a.0, a.1)
			}
			Pow(_, a, k) => {
				let a = a.ev(x, ph, w);
				(a.0.powi(*k as i32), a.1 * *k as f64)
			}
			Con(l, a) => {
				let a = a.ev(x, ph, w);
				(a.0 * w[*l as usize], a.1)
			}
			Pen(a, b) => {
				let (a, b) = (a.ev(x, ph, w), b.ev(x, ph, w));
				(a.0, a.1 + b.0 + b.1)
			}
		}
	}
	/// The same in integers, with constraints that weigh nothing.
	pub fn evi(&self, x: Bits, ph: &[i128]) -> (i128, i128) {
		fn op(o: Op, a: i128, b: i128) -> i128 {
			match o {
				Op::Add => a.wrapping_add(b),
				Op::Sub => a.wrapping_sub(b),
				Op::Mul => a.wrapping_mul(b),
			}
		}
		let b = (x >> match self {
			Bin(i) | Spin(i) => *i,
			_ => 0,
		} & 1) as i128;
		match self {
			Num(l) => (l.i(), 0),
			Bin(_) => (b, 0),
			Spin(_) => (b * 2 - 1, 0),
			Ph(i) => (ph[*i as usize], 0),
			E(o, _, a, b) => {
				let (a, b) = (a.evi(x, ph), b.evi(x, ph));
				(op(*o, a.0, b.0), a.1 + b.1)
			}
			R(o, _, a, l) => {
				let a = a.evi(x, ph);
				(op(*o, a.0, l.i()), a.1)
			}
			L(o, l, a) => {
				let a = a.evi(x, ph);
				(op(*o, l.i(), a.0), a.1)
			}
			Neg(a) => {
				let a = a.evi(x, ph);
				(-a.0, a.1)
			}
			Pow(_, a, k) => {
				let a = a.evi(x, ph);
				(a.0.wrapping_pow(*k as u32), a.1.wrapping_mul(*k as i128))
			}
			Con(_, a) => (0, a.evi(x, ph).1),
			Pen(a, b) => {
				let (a, b) = (a.evi(x, ph), b.evi(x, ph));
				(a.0, a.1 + b.0 + b.1)
			}
		}
	}
	/// Objective plus penalties plus weighted constraints.
	pub fn value(&self, x: Bits, ph: &[f64], w: &[f64]) -> f64 {
		let (a, b) = self.ev(x, ph, w);
		a + b
	}
	/// Without constraints, the value; and how it and the penalty depend on the weight of a label
	/// (NaN where that is not a straight line).
	pub fn slope(&self, x: Bits, ph: &[f64], label: u8) -> (f64, f64, f64) {
		let sl = |a: &Ast| a.slope(x, ph, label);
		match self {
			E(o, _, a, b) => {
				let (a, b) = (sl(a), sl(b));
				let p = a.2 + b.2;
				match o {
					Op::Add => (a.0 + b.0, a.1 + b.1, p),
					Op::Sub => (a.0 - b.0, a.1 - b.1, p),
					Op::Mul if a.1 != 0.0 && b.1 != 0.0 => (f64::NAN, f64::NAN, p),
					Op::Mul => (a.0 * b.0, a.1 * b.0 + a.0 * b.1, p),
				}
			}
			R(o, _, a, l) => E(*o, false, a.clone(), bx(Num(*l))).slope(x, ph, label),
			L(o, l, a) => E(*o, false, bx(Num(*l)), a.clone()).slope(x, ph, label),
			Neg(a) => {
				let a = sl(a);
				(-a.0, -a.1, a.2)
			}
			Pow(_, a, k) => {
				let a = sl(a);
				let d = match k {
					0 => 0.0,
					1 => a.1,
					_ if a.1 == 0.0 => 0.0,
					_ => f64::NAN,
				};
				(a.0.powi(*k as i32), d, a.2 * *k as f64)
			}
			Con(l, a) => {
				let a = sl(a);
				(0.0, if *l == label { a.0 } else { 0.0 }, if a.1 == 0.0 { a.2 } else { f64::NAN })
			}
			Pen(a, b) => {
				let (a, b) = (sl(a), sl(b));
				(a.0, a.1, a.2 + b.1 + b.2)
			}
			_ => (self.ev(x, ph, &[]).0, 0.0, 0.0),
		}
	}
	pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Ast)) {
		f(self);
		match self {
			E(_, _, a, b) | Pen(a, b) => {
				a.walk(f);
				b.walk(f);
			}
			R(_, _, a, _) | L(_, _, a) | Neg(a) | Pow(_, a, _) | Con(_, a) => a.walk(f),
			_ => {}
		}
	}
	/// All constraint occurrences.
	pub fn constraints(&self) -> Vec<(u8, &Ast)> {
		let mut v = vec![];
		self.walk(&mut |a| {
			if let Con(l, e) = a {
				v.push((*l, &**e))
			}
		});
		v
	}
	pub fn labels(&self) -> Vec<u8> {
		let mut v: Vec<u8> = self.constraints().iter().map(|c| c.0).collect();
		v.sort();
		v.dedup();
		v
	}
	pub fn vars(&self) -> Vec<u8> {
		let mut v = vec![];
		self.walk(&mut |a| {
			if let Bin(i) | Spin(i) = a {
				v.push(*i)
			}
		});
		v.sort();
		v.dedup();
		v
	}
	pub fn phs(&self) -> Vec<u8> {
		let mut v = vec![];
		self.walk(&mut |a| {
			if let Ph(i) = a {
				v.push(*i)
			}
		});
		v.sort();
		v.dedup();
		v
	}
	/// Upper bound of the degree.
	pub fn degree(&self) -> u32 {
		match self {
			Num(_) | Ph(_) => 0,
			Bin(_) | Spin(_) => 1,
			// (no product has more factors than there are variables)
			E(Op::Mul, _, a, b) => (a.degree() + b.degree()).min(self.live_vars().len() as u32),
			E(_, _, a, b) | Pen(a, b) => a.degree().max(b.degree()),
			R(_, _, a, _) | L(_, _, a) | Neg(a) | Con(_, a) => a.degree(),
			Pow(_, a, k) => (a.degree() * *k as u32).min(self.live_vars().len() as u32),
		}
	}
	/// A bound on whatever may be come across on the way, in any order.
	pub fn peak(&self, ph: &[f64], w: f64) -> f64 {
		match self {
			Num(l) => l.f().abs().max(1.0),
			Bin(_) | Spin(_) => 1.0,
			Ph(i) => ph[*i as usize].abs().max(1.0),
			E(Op::Mul, _, a, b) => a.peak(ph, w) * b.peak(ph, w),
			E(_, _, a, b) | Pen(a, b) => a.peak(ph, w) + b.peak(ph, w),
			R(Op::Mul, _, a, l) | L(Op::Mul, l, a) => a.peak(ph, w) * l.f().abs().max(1.0),
			R(_, _, a, l) | L(_, l, a) => a.peak(ph, w) + l.f().abs().max(1.0),
			Neg(a) => a.peak(ph, w),
			Con(_, a) => a.peak(ph, w) * w.max(1.0),
			Pow(_, a, k) => a.peak(ph, w).powi(*k as i32),
		}
	}
	/// A bound on magnitudes (for tolerances).
	pub fn bound(&self, ph: &[f64], w: f64) -> f64 {
		match self {
			Num(l) => l.f().abs(),
			Bin(_) | Spin(_) => 1.0,
			Ph(i) => ph[*i as usize].abs(),
			E(Op::Mul, _, a, b) => a.bound(ph, w) * b.bound(ph, w),
			E(_, _, a, b) | Pen(a, b) => a.bound(ph, w) + b.bound(ph, w),
			R(Op::Mul, _, a, l) | L(Op::Mul, l, a) => a.bound(ph, w) * l.f().abs(),
			R(_, _, a, l) | L(_, l, a) => a.bound(ph, w) + l.f().abs(),
			Neg(a) => a.bound(ph, w),
			Con(_, a) => a.bound(ph, w) * w,
			Pow(_, a, k) => a.bound(ph, w).powi(*k as i32),
		}
	}
	/// Variables that occur (after expansion, zero coefficients included); x^0 drops its content.
	pub fn live_vars(&self) -> Vec<u8> {
		fn go(a: &Ast, v: &mut Vec<u8>) {
			match a {
				Bin(i) | Spin(i) => v.push(*i),
				Pow(_, _, 0) => {}
				E(_, _, a, b) | Pen(a, b) => {
					go(a, v);
					go(b, v)
				}
				R(_, _, a, _) | L(_, _, a) | Neg(a) | Pow(_, a, _) | Con(_, a) => go(a, v),
				_ => {}
			}
		}
		let mut v = vec![];
		go(self, &mut v);
		v.sort();
		v.dedup();
		v
	}
	pub fn show(&self) -> String {
		let mut s = String::new();
		self.sh(&mut s);
		s
	}
	fn sh(&self, s: &mut String) {
		let o = |o: &Op| match o {
			Op::Add => '+',
			Op::Sub => '-',
			Op::Mul => '*',
		};
		let l = |l: &Lit| {
			if l.1 == 0 {
				format!("{}", l.0)
			} else {
				format!("{}e{}", l.0, l.1)
			}
		};
		match self {
			Num(n) => s.push_str(&l(n)),
			Bin(i) => write!(s, "b{}", i).unwrap(),
			Spin(i) => write!(s, "s{}", i).unwrap(),
			Ph(i) => write!(s, "p{}", i).unwrap(),
			E(p, f, a, b) => {
				write!(s, "({}{} ", o(p), if *f { "=" } else { "" }).unwrap();
				a.sh(s);
				s.push(' ');
				b.sh(s);
				s.push(')');
			}
			R(p, f, a, n) => {
				write!(s, "(r{}{} ", o(p), if *f { "=" } else { "" }).unwrap();
				a.sh(s);
				write!(s, " {})", l(n)).unwrap();
			}
			L(p, n, a) => {
				write!(s, "(l{} {} ", o(p), l(n)).unwrap();
				a.sh(s);
				s.push(')');
			}
			Neg(a) => {
				s.push_str("(~ ");
				a.sh(s);
				s.push(')');
			}
			Pow(f, a, k) => {
				write!(s, "(^{} ", if *f { "=" } else { "" }).unwrap();
				a.sh(s);
				write!(s, " {})", k).unwrap();
			}
			Con(n, a) => {
				write!(s, "(C {} ", n).unwrap();
				a.sh(s);
				s.push(')');
			}
			Pen(a, b) => {
				s.push_str("(P ");
				a.sh(s);
				s.push(' ');
				b.sh(s);
				s.push(')');
			}
		}
	}
	pub fn parse(t: &str) -> Result<Ast, String> {
		let t = t.replace('(', " ( ").replace(')', " ) ");
		let v: Vec<&str> = t.split_whitespace().collect();
		let mut i = 0;
		let a = parse(&v, &mut i)?;
		if i != v.len() {
			return Err("trailing tokens".into());
		}
		Ok(a)
	}
	/// Smaller variants, for minimisation.
	pub fn shrinks(&self) -> Vec<Ast> {
		let mut v: Vec<Ast> = vec![];
		match self {
			E(_, _, a, b) | Pen(a, b) => {
				v.push((**a).clone());
				v.push((**b).clone());
			}
			R(_, _, a, _) | L(_, _, a) | Neg(a) => v.push((**a).clone()),
			Pow(_, a, k) => {
				v.push((**a).clone());
				if *k > 1 {
					v.push(Pow(false, a.clone(), k - 1));
				}
			}
			_ => {}
		}
		match self {
			Num(Lit(n, e)) if *n != 0 && *n != 1 => {
				v.push(Num(Lit(1, 0)));
				if *n < -1 || *n > 1 {
					v.push(Num(Lit(n / 2, *e)))
				}
			}
			Spin(i) => v.push(Bin(*i)),
			Ph(_) => v.push(Num(Lit(1, 0))),
			E(o, true, a, b) => v.push(E(*o, false, a.clone(), b.clone())),
			_ => {}
		}
		match self {
			E(o, f, a, b) => {
				for s in a.shrinks() {
					v.push(E(*o, *f, bx(s), b.clone()))
				}
				for s in b.shrinks() {
					v.push(E(*o, *f, a.clone(), bx(s)))
				}
			}
			Pen(a, b) => {
				for s in a.shrinks() {
					v.push(Pen(bx(s), b.clone()))
				}
				for s in b.shrinks() {
					v.push(Pen(a.clone(), bx(s)))
				}
			}
			R(o, f, a, l) => {
				for s in a.shrinks() {
					v.push(R(*o, *f, bx(s), *l))
				}
			}
			L(o, l, a) => {
				for s in a.shrinks() {
					v.push(L(*o, *l, bx(s)))
				}
			}
			Neg(a) => {
				for s in a.shrinks() {
					v.push(Neg(bx(s)))
				}
			}
			Pow(f, a, k) => {
				for s in a.shrinks() {
					v.push(Pow(*f, bx(s), *k))
				}
			}
			Con(n, a) => {
				for s in a.shrinks() {
					v.push(Con(*n, bx(s)))
				}
			}
			_ => {}
		}
		v
	}
}

fn lit(t: &str) -> Result<Lit, String> {
	let mut p = t.splitn(2, 'e');
	let n = p.next().unwrap().parse().map_err(|_| format!("number {}", t))?;
	let e = match p.next() {
		Some(e) => e.parse().map_err(|_| format!("number {}", t))?,
		None => 0,
	};
	Ok(Lit(n, e))
}

fn parse(v: &[&str], i: &mut usize) -> Result<Ast, String> {
	let t = *v.get(*i).ok_or("unexpected end")?;
	*i += 1;
	if t != "(" {
		let num = |s: &str| s[1..].parse::<u8>().map_err(|_| format!("atom {}", s));
		return Ok(match t.as_bytes()[0] {
			b'b' => Bin(num(t)?),
			b's' => Spin(num(t)?),
			b'p' => Ph(num(t)?),
			_ => Num(lit(t)?),
		});
	}
	let h = *v.get(*i).ok_or("unexpected end")?;
	*i += 1;
	let asg = h.ends_with('=');
	let hh = h.trim_end_matches('=');
	let op = |c: char| match c {
		'+' => Ok(Op::Add),
		'-' => Ok(Op::Sub),
		'*' => Ok(Op::Mul),
		_ => Err(format!("operator {}", h)),
	};
	fn tok<'a>(v: &[&'a str], i: &mut usize) -> Result<&'a str, String> {
		let t = *v.get(*i).ok_or("unexpected end")?;
		*i += 1;
		Ok(t)
	}
	let r = match hh {
		"~" => Neg(bx(parse(v, i)?)),
		"C" => {
			let n = tok(v, i)?.parse().map_err(|_| "label")?;
			Con(n, bx(parse(v, i)?))
		}
		"P" => {
			let a = parse(v, i)?;
			Pen(bx(a), bx(parse(v, i)?))
		}
		"^" => {
			let a = parse(v, i)?;
			Pow(asg, bx(a), tok(v, i)?.parse().map_err(|_| "power")?)
		}
		_ if hh.starts_with('r') => {
			let o = op(hh.chars().nth(1).unwrap_or('?'))?;
			let a = parse(v, i)?;
			R(o, asg, bx(a), lit(tok(v, i)?)?)
		}
		_ if hh.starts_with('l') => {
			let o = op(hh.chars().nth(1).unwrap_or('?'))?;
			let l = lit(tok(v, i)?)?;
			L(o, l, bx(parse(v, i)?))
		}
		_ => {
			let o = op(hh.chars().next().unwrap_or('?'))?;
			let a = parse(v, i)?;
			E(o, asg, bx(a), bx(parse(v, i)?))
		}
	};
	if tok(v, i)? != ")" {
		return Err("missing )".into());
	}
	Ok(r)
}
