//! Concrete types a user might choose, behind one trait.
use crate::pipe::{Backend, Sim, SimErr};
use annealers::model::FixedSingleQuadricModel;
use annealers::node::Binary;
use annealers::variable::Real;
use classical_solver::sa::{SimulatedAnnealer, SimulatedAnnealerGenerator};
use classical_solver::NoneError;
use core_ref::ast::{Ast, Lit, Op};
use rustqubo::solution::SolutionView;
use rustqubo::solve::SimpleSolver;
use rustqubo::{Expr, TcType, TpType, TqType};

pub type P<R> = FixedSingleQuadricModel<Binary<R>>;
pub type Solv<M> =
	SimpleSolver<'static, <M as Mono>::Tq, <M as Mono>::Tc, Backend<M>, P<<M as Mono>::R>, Sim<M>, <M as Mono>::R>;
pub type Deflt<M> = SimpleSolver<
	'static,
	<M as Mono>::Tq,
	<M as Mono>::Tc,
	SimulatedAnnealerGenerator<'static, P<<M as Mono>::R>>,
	P<<M as Mono>::R>,
	SimulatedAnnealer<'static, P<<M as Mono>::R>, <M as Mono>::R>,
	<M as Mono>::R,
>;

pub trait Num: Real {
	fn lit(l: Lit) -> Self;
	fn exact(self) -> String;
	/// itself, if it is of an integer type
	fn int(self) -> Option<i128>;
	fn from_int(x: i128) -> Self;
	fn right<Tp: TpType, Tq: TqType, Tc: TcType>(o: Op, a: Expr<Tp, Tq, Tc, Self>, b: Self) -> Expr<Tp, Tq, Tc, Self>;
	fn left<Tp: TpType, Tq: TqType, Tc: TcType>(o: Op, a: Self, b: Expr<Tp, Tq, Tc, Self>) -> Expr<Tp, Tq, Tc, Self>;
}
macro_rules! num {
	($t:ty, $l:ident => $lit:expr, $x:ident => $ex:expr, $i:expr) => {
		impl Num for $t {
			fn lit($l: Lit) -> Self {
				$lit
			}
			fn exact(self) -> String {
				let $x = self;
				$ex
			}
			fn int(self) -> Option<i128> {
				if $i {
					Some(self as i128)
				} else {
					None
				}
			}
			fn from_int(x: i128) -> Self {
				x as $t
			}
			fn right<Tp: TpType, Tq: TqType, Tc: TcType>(
				o: Op,
				a: Expr<Tp, Tq, Tc, Self>,
				b: Self,
			) -> Expr<Tp, Tq, Tc, Self> {
				match o {
					Op::Add => a + b,
					Op::Sub => a - b,
					Op::Mul => a * b,
				}
			}
			fn left<Tp: TpType, Tq: TqType, Tc: TcType>(
				o: Op,
				a: Self,
				b: Expr<Tp, Tq, Tc, Self>,
			) -> Expr<Tp, Tq, Tc, Self> {
				match o {
					Op::Add => a + b,
					Op::Sub => a - b,
					Op::Mul => a * b,
				}
			}
		}
	};
}
num!(f64, l => l.f(), x => format!("{:016x} {}", if x == 0.0 { 0 } else { x.to_bits() }, x), false);
num!(f32, l => l.f() as f32, x => format!("{:08x} {}", if x == 0.0 { 0 } else { x.to_bits() }, x), false);
num!(i32, l => Ord::clamp(l.i(), i32::MIN as i128, i32::MAX as i128) as i32, x => x.to_string(), true);
num!(i64, l => Ord::clamp(l.i(), i64::MIN as i128, i64::MAX as i128) as i64, x => x.to_string(), true);
num!(i16, l => Ord::clamp(l.i(), i16::MIN as i128, i16::MAX as i128) as i16, x => x.to_string(), true);
num!(i8, l => Ord::clamp(l.i(), i8::MIN as i128, i8::MAX as i128) as i8, x => x.to_string(), true);
num!(i128, l => Ord::clamp(l.i(), i128::MIN as i128, i128::MAX as i128) as i128, x => x.to_string(), true);

pub trait Lab: TqType + Send + Sync + 'static {
	fn make(i: u8) -> Self;
}
impl Lab for () {
	fn make(_: u8) {}
}
impl Lab for usize {
	fn make(i: u8) -> usize {
		i as usize * 3 + 1
	}
}
impl Lab for i64 {
	fn make(i: u8) -> i64 {
		-(i as i64) * 1_000_000_007
	}
}
impl Lab for char {
	fn make(i: u8) -> char {
		char::from_u32(0x1f600 - i as u32 * 7).unwrap()
	}
}
impl Lab for u16 {
	fn make(i: u8) -> u16 {
		65535 - i as u16
	}
}
impl Lab for (u8, u8) {
	fn make(i: u8) -> (u8, u8) {
		(i % 5, i / 5)
	}
}
impl Lab for String {
	fn make(i: u8) -> String {
		// not in the order of the numbers, some equal up to a prefix
		match i % 3 {
			0 => format!("q{}", i),
			1 => format!("q{}x", i - 1),
			_ => format!("A long label, number {}", i),
		}
	}
}
impl Lab for &'static str {
	fn make(i: u8) -> &'static str {
		const T: [&str; 128] = [
			"z", "zz", "a", "", " ", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l",
			"m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "aa", "ab", "ac",
			"ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "ya", "yh", "yo", "yv", "yc", "yj", "yq", "yx",
			"ye", "yl", "ys", "yz", "yg", "yn", "yu", "yb", "yi", "yp", "yw", "yd", "yk", "yr", "yy", "yf",
			"ym", "yt", "xa", "xh", "xo", "xv", "xc", "xj", "xq", "xx", "xe", "xl", "xs", "xz", "xg", "xn",
			"xu", "xb", "xi", "xp", "xw", "xd", "xk", "xr", "xy", "xf", "xm", "xt", "wa", "wh", "wo", "wv",
			"wc", "wj", "wq", "wx", "we", "wl", "ws", "wz", "wg", "wn", "wu", "wb", "wi", "wp", "ww", "wd",
			"wk", "wr", "wy", "wf", "wm", "wt", "va", "vh", "vo", "vv", "vc", "vj", "vq", "vx", "ve", "vl",
		];
		T[i as usize]
	}
}

pub type PlainOut<M, E> = Result<(<M as Mono>::R, SolutionView<<M as Mono>::Tq, <M as Mono>::R>), E>;

pub trait Mono: Sized + Send + Sync + 'static {
	type R: Num;
	type Tq: Lab;
	type Tp: Lab;
	type Tc: Lab;
	/// `solve` instead of `solve_with_constraints`, where that exists
	fn plain(_: &Solv<Self>) -> Option<PlainOut<Self, SimErr>> {
		None
	}
	fn plain_default(_: &Deflt<Self>) -> Option<PlainOut<Self, NoneError>> {
		None
	}
}
macro_rules! mono {
	($n:ident, $r:ty, $q:ty, $p:ty, $c:ty) => {
		pub struct $n;
		impl Mono for $n {
			type R = $r;
			type Tq = $q;
			type Tp = $p;
			type Tc = $c;
		}
	};
}
mono!(M0, f64, usize, String, i64);
mono!(M1, i32, (u8, u8), usize, String);
mono!(M2, i64, String, u16, (u8, u8));
mono!(M3, f32, &'static str, i64, usize);
mono!(M6, i16, char, u16, i64);
mono!(M4, i128, usize, (u8, u8), &'static str);
pub struct M5;
impl Mono for M5 {
	type R = f64;
	type Tq = i64;
	type Tp = &'static str;
	type Tc = ();
	fn plain(s: &Solv<Self>) -> Option<PlainOut<Self, SimErr>> {
		Some(s.solve())
	}
	fn plain_default(s: &Deflt<Self>) -> Option<PlainOut<Self, NoneError>> {
		Some(s.solve())
	}
}

/// What a user would write. There are several ways to write the same.
pub fn build<M: Mono, Tp: Lab>(a: &Ast, ph: &[(Lit, u8)], style: u64) -> Expr<Tp, M::Tq, M::Tc, M::R> {
	let go = |a: &Ast| build::<M, Tp>(a, ph, simos::mix(style));
	let raw = style & 6 == 6;
	match a {
		Ast::Num(Lit(0, _)) if raw => Expr::zero(),
		Ast::Num(l) if raw && l.f() == 1.0 => Expr::one(),
		Ast::E(Op::Add, _, a, b) if raw => Expr::Add(Box::new(go(a)), Box::new(go(b))),
		Ast::E(Op::Mul, _, a, b) if raw => Expr::Mul(Box::new(go(a)), Box::new(go(b))),
		Ast::E(Op::Sub, _, a, b) if raw => Expr::Add(Box::new(go(a)), Box::new(-go(b))),
		Ast::R(Op::Add, _, a, l) if raw => go(a) + Expr::from(M::R::lit(*l)),
		Ast::R(Op::Mul, _, a, l) if raw => Expr::Number(M::R::lit(*l)) * go(a),
		Ast::Num(l) => {
			if l.0 & 1 == 0 {
				Expr::Number(M::R::lit(*l))
			} else {
				Expr::from(M::R::lit(*l))
			}
		}
		Ast::Bin(i) => Expr::Binary(M::Tq::make(*i)),
		Ast::Spin(i) => Expr::Spin(M::Tq::make(*i)),
		Ast::Ph(i) => {
			let (l, st) = ph[*i as usize];
			if st == 0 {
				Expr::Number(M::R::lit(l))
			} else {
				Expr::Placeholder(Tp::make(*i))
			}
		}
		Ast::E(o, false, a, b) => match o {
			Op::Add => go(a) + go(b),
			Op::Sub => go(a) - go(b),
			Op::Mul => go(a) * go(b),
		},
		Ast::E(o, true, a, b) => {
			let mut x = go(a);
			match o {
				Op::Add => x += go(b),
				Op::Sub => x -= go(b),
				Op::Mul => x *= go(b),
			}
			x
		}
		Ast::R(o, false, a, l) => M::R::right(*o, go(a), M::R::lit(*l)),
		Ast::R(o, true, a, l) => {
			let mut x = go(a);
			let l = M::R::lit(*l);
			match o {
				Op::Add => x += l,
				Op::Sub => x -= l,
				Op::Mul => x *= l,
			}
			x
		}
		Ast::L(o, l, a) => M::R::left(*o, M::R::lit(*l), go(a)),
		Ast::Neg(a) => -go(a),
		Ast::Pow(false, a, k) => go(a) ^ (*k as usize),
		Ast::Pow(true, a, k) => {
			let mut x = go(a);
			x ^= *k as usize;
			x
		}
		Ast::Con(l, e) => Expr::Constraint { label: M::Tc::make(*l), expr: Box::new(go(e)) },
		Ast::Pen(e, p) => Expr::WithPenalty { expr: Box::new(go(e)), penalty: Box::new(go(p)) },
	}
}
