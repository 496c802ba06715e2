//! Problem models, bit states and solutions under arbitrary histories of operations, next to plain copies of what
//! they should hold.
use crate::ann::AnyRng;
use crate::mono::Num;
use crate::pipe::Share;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use core_ref::ast::Lit;
use core_ref::driver::{panic_text, Report};
use core_ref::plain::{value, Rm};
use core_ref::spec::*;
use rand::RngCore;
use simos::{h3, NoPreempt, Prng, Shm};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// (NodeSet hides methods of Vec)
mod sets {
	use annealers::set::NodeSet;
	pub fn listed<S: NodeSet>(s: S) -> Vec<usize> {
		s.into_vec()
	}
}
use sets::listed;

struct State {
	spec: Spec,
	rep: Report,
	log: Vec<String>,
}
static mut STATE: *mut State = std::ptr::null_mut();
fn state() -> &'static mut State {
	unsafe { &mut *STATE }
}
fn find(who: &str, m: String) {
	let _g = NoPreempt::new();
	state().rep.find("C21", format!("{}: {}", who, m));
}
fn note(k: &str, n: u64) {
	let _g = NoPreempt::new();
	state().rep.note(k, n);
}
/// Does it refuse?
fn refuses<T>(f: impl FnOnce() -> T) -> bool {
	catch_unwind(AssertUnwindSafe(|| {
		std::hint::black_box(f());
	}))
	.is_err()
}

pub trait Mk<R: Num>: SingleNode<RealType = R> + 'static {
	fn mk() -> Self;
}
impl<R: Num> Mk<R> for Binary<R> {
	fn mk() -> Self {
		Binary::new()
	}
}
impl<R: Num> Mk<R> for Spin<R> {
	fn mk() -> Self {
		Spin::new()
	}
}
impl<R: Num> Mk<R> for TwoVal<R> {
	fn mk() -> Self {
		TwoVal::new(R::from_i32(3), R::from_i32(-2))
	}
}
pub trait Sm<R: Num, N: Mk<R>>: SingleModelView<Node = N> + Send + Sync + 'static {
	const DENSE: bool;
	fn make(n: usize) -> Self;
	/// in any order
	fn add(&mut self, k: &[usize], w: R);
	fn set(k: &[usize]) -> <Self::Order as Order>::NodeSetType;
}
impl<R: Num, N: Mk<R>> Sm<R, N> for FixedSingleQuadricModel<N> {
	const DENSE: bool = true;
	fn make(n: usize) -> Self {
		FixedSingleQuadricModel::new(N::mk(), n)
	}
	fn add(&mut self, k: &[usize], w: R) {
		self.add_weight(k[0], k[k.len() - 1], w)
	}
	fn set(k: &[usize]) -> [usize; 2] {
		let (a, b) = (k[0], k[k.len() - 1]);
		[a.min(b), a.max(b)]
	}
}
impl<R: Num, N: Mk<R>> Sm<R, N> for SingleModel<N, Quadric> {
	const DENSE: bool = false;
	fn make(_: usize) -> Self {
		SingleModel::new(N::mk(), Quadric)
	}
	fn add(&mut self, k: &[usize], w: R) {
		self.add_weight(<Self as Sm<R, N>>::set(k), w)
	}
	fn set(k: &[usize]) -> [usize; 2] {
		let (a, b) = (k[0], k[k.len() - 1]);
		[a.min(b), a.max(b)]
	}
}
impl<R: Num, N: Mk<R>> Sm<R, N> for SingleModel<N, HighOrder> {
	const DENSE: bool = false;
	fn make(_: usize) -> Self {
		SingleModel::new(N::mk(), HighOrder::new(3))
	}
	fn add(&mut self, k: &[usize], w: R) {
		self.add_weight(<Self as Sm<R, N>>::set(k), w)
	}
	fn set(k: &[usize]) -> BTreeSet<usize> {
		k.iter().cloned().collect()
	}
}

/// A number, exactly; of floating-point types, in units of 2^-40.
fn units<R: Num>(x: R) -> i128 {
	x.int().unwrap_or_else(|| {
		let y = x.as_f64() * (2f64).powi(40);
		if y.fract() == 0.0 {
			y as i128
		} else {
			i128::MIN // (no sum of weights has such an amount)
		}
	})
}

struct Mdl<P> {
	p: P,
	r: Rm,
}
impl<P: Clone> Clone for Mdl<P> {
	fn clone(&self) -> Self {
		Mdl { p: self.p.clone(), r: self.r.clone() }
	}
}
#[derive(Clone)]
struct Bst {
	s: BinaryRepr,
	r: Vec<bool>,
}
#[derive(Clone)]
struct Sol<N: SingleNode> {
	s: SingleSolution<N>,
	r: Vec<bool>,
	energy: Option<i128>,
	field: Option<Vec<i128>>,
	occ: usize,
}
struct World<R: Num, N: Mk<R>, P: Sm<R, N>> {
	m: Vec<Mdl<P>>,
	b: Vec<Bst>,
	s: Vec<Sol<N>>,
	who: String,
	_p: std::marker::PhantomData<fn() -> R>,
}
const CAP: usize = 8;
fn put<T>(v: &mut Vec<T>, x: T, at: u32) {
	if v.len() < CAP {
		v.push(x)
	} else {
		v[at as usize % CAP] = x
	}
}
fn text(k: &[bool]) -> String {
	k.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

fn same_model<R: Num, N: Mk<R>, P: Sm<R, N>>(who: &str, what: &str, p: &P, r: &Rm) {
	let bad = |m: String| find(who, format!("{}: {}", what, m));
	let mut read = vec![];
	let e = catch_unwind(AssertUnwindSafe(|| {
		for k in r.w.keys() {
			read.push(units(SingleModelView::get_weight(p, &P::set(k))));
		}
	}));
	if let Err(e) = e {
		return bad(format!("it refuses to say a weight: {}", panic_text(&*e)));
	}
	let nodes: Vec<usize> = SingleModelView::nodes(p).into_iter().collect();
	let size = SingleModelView::size(p);
	let mut prods = vec![];
	for k in SingleModelView::prods(p) {
		let w = units(SingleModelView::get_weight(p, &k));
		prods.push((listed(k), w));
	}
	let mut around = vec![];
	for i in nodes.iter() {
		let v: Vec<Vec<usize>> = SingleModelView::neighbors(p, *i).into_iter().map(|k| listed(k)).collect();
		around.push(v);
	}
	let _g = NoPreempt::new();
	let mut out = vec![];
	r.compare(P::DENSE, size, &nodes, &prods, &around, &read, &mut out);
	for m in out {
		bad(m)
	}
}

impl<R: Num, N: Mk<R>, P: Sm<R, N>> World<R, N, P> {
	fn same_bits(&self, what: &str, b: &BinaryRepr, r: &[bool]) {
		let bad = |m: String| find(&self.who, format!("{}: {}", what, m));
		if b.len() != r.len() || b.is_empty() != r.is_empty() {
			return bad(format!("it has {} bits instead of {}", b.len(), r.len()));
		}
		let v = b.to_vec();
		if v != r {
			return bad(format!("it holds {} instead of {}", text(&v), text(r)));
		}
		let all: Vec<bool> = b.iter().collect();
		if all != r {
			return bad(format!("it goes through {} instead of {}", text(&all), text(r)));
		}
		for i in 0..r.len() {
			if b.get(i) != r[i] || b[i] != r[i] || unsafe { b.get_unchecked(i) } != r[i] {
				return bad(format!("its bit {} is read as {} instead of {}", i, !r[i], r[i]));
			}
		}
		if format!("{:?}", b) != format!("{:?}", r) {
			bad(format!("it prints as {:?} instead of {:?}", b, r))
		}
	}
	fn same_sol(&self, what: &str, s: &Sol<N>) {
		let bad = |m: String| find(&self.who, format!("{}: {}", what, m));
		self.same_bits(what, &s.s.state, &s.r);
		if s.s.len() != s.r.len() {
			return bad(format!("it has {} bits instead of {}", s.s.len(), s.r.len()));
		}
		for i in 0..s.r.len() {
			if s.s.get(i) != s.r[i] || s.s[i] != s.r[i] || unsafe { s.s.get_unchecked(i) } != s.r[i] {
				return bad(format!("its bit {} is read as {} instead of {}", i, !s.r[i], s.r[i]));
			}
		}
		let e = s.s.energy.map(units);
		if e != s.energy {
			bad(format!("its energy is {:?} instead of {:?}", e, s.energy))
		}
		let f = s.s.local_field.as_ref().map(|v| v.iter().map(|x| units(*x)).collect::<Vec<_>>());
		if f != s.field {
			bad(format!("its flip costs are {:?} instead of {:?}", f, s.field))
		}
		if s.s.occurrences != s.occ {
			bad(format!("it occurred {} times instead of {}", s.s.occurrences, s.occ))
		}
	}
	fn look(&self, what: &str, m: &Mdl<P>, s: &Sol<N>, kind: u8) {
		if s.r.len() < m.r.need() {
			return;
		}
		note("energies_compared", 1);
		let bad = |x: String| find(&self.who, format!("{}: {}", what, x));
		let e = units(s.s.calculate_energy(&m.p));
		let want = s.energy.unwrap_or(m.r.energy(kind, &s.r));
		if e != want {
			bad(format!("the energy of {} is {} instead of {}", text(&s.r), e, want))
		}
		let f: Vec<i128> = s.s.clone().calculate_local_field(&m.p).iter().map(|x| units(*x)).collect();
		let want = s.field.clone().unwrap_or(m.r.field(kind, &s.r));
		if f != want {
			bad(format!("the flip costs of {} are {:?} instead of {:?}", text(&s.r), f, want))
		}
		for k in SingleModelView::prods(&m.p) {
			let v: Vec<usize> = listed(k.clone());
			let bits: Vec<bool> = v.iter().map(|i| s.r[*i]).collect();
			let want = bits.iter().fold(units(R::from_i32(1)), |p, b| p * value(kind, *b));
			let a = units(SingleModelView::calculate_prod(&m.p, &k, &s.s));
			let b = units(SingleNode::calculate_prod(SingleModelView::node(&m.p), &bits));
			if a != want || b != want {
				return bad(format!("the product {:?} at {} is {} and {} instead of {}", v, text(&s.r), a, b, want));
			}
		}
	}
	fn step(&mut self, st: &Store, o: &SOp, shared: &[Mdl<P>]) {
		let (a, b, c) = (o.a as usize, o.b as usize, o.c as usize);
		let n = st.n;
		let (nm, nb, ns) = (self.m.len(), self.b.len(), self.s.len());
		let (im, ib, is) = (a % nm.max(1), a % nb.max(1), a % ns.max(1));
		match o.code {
			0 => {
				let k = if b % 3 == 0 { c % (n + 1) } else { n };
				put(&mut self.m, Mdl { p: P::make(k), r: Rm::new(P::DENSE, k) }, o.a)
			}
			1 if nm > 0 => {
				let m = &mut self.m[im];
				let sz = if P::DENSE { m.r.size } else { n };
				if sz == 0 {
					return;
				}
				let mut k = vec![b % sz, b / 64 % sz];
				if st.form == 2 && c & 1 == 1 {
					k.push(b / 4096 % sz);
				}
				let k = if st.form == 2 { Rm::key(&k) } else { k };
				*m.r.w.entry(Rm::key(&k)).or_insert(0) += units(R::lit(o.w));
				m.p.add(&k, R::lit(o.w));
			}
			2 if nm > 0 => {
				let m = self.m[im].clone();
				put(&mut self.m, m, o.b)
			}
			3 if nm > 0 => same_model::<R, N, P>(&self.who, &format!("model {}", im), &self.m[im].p, &self.m[im].r),
			4 if nm > 1 => {
				let src = self.m[im].clone();
				let d = &mut self.m[b % nm];
				d.p.clone_from(&src.p);
				d.r = src.r;
			}
			5 if nm > 1 => {
				self.m.swap_remove(im);
			}
			6 if nm > 0 && P::DENSE => {
				let m = &mut self.m[im];
				let (i, j) = if c & 1 == 0 { (m.r.size + b % 3, 0) } else { (0, m.r.size + b % 3) };
				let w = R::lit(o.w);
				if !refuses(|| m.p.add(&[i, j], w)) || !refuses(|| SingleModelView::get_weight(&m.p, &P::set(&[i, j]))) {
					let what = format!("model {}: it accepts the pair {:?}, having {} variables", im, (i, j), m.r.size);
					find(&self.who, what)
				}
				same_model::<R, N, P>(&self.who, &format!("model {}", im), &self.m[im].p, &self.m[im].r)
			}
			10 | 19 | 21 => {
				let len = match c % 4 {
					0 => b % 80,
					1 => 8 * (b % 10),
					2 if b / 1024 % 8 == 0 => 250 + b % 800,
					2 if b / 1024 % 512 == 1 => 65_530 + b % 100,
					_ => n,
				};
				let mut p = Prng(h3(state().spec.seed, o.b as u64, o.c as u64));
				let r: Vec<bool> = (0..len).map(|_| p.next() & 1 == 1).collect();
				if o.code == 21 {
					put(&mut self.s, Sol { s: SingleSolution::from_vec(&r), r, energy: None, field: None, occ: 1 }, o.a);
					return;
				}
				let s = if o.code == 10 {
					BinaryRepr::from_vec(&r)
				} else {
					let mut s = unsafe { BinaryRepr::with_len_unchecked(len) };
					for i in (0..len).rev() {
						s.set(i, r[i])
					}
					s
				};
				put(&mut self.b, Bst { s, r }, o.a)
			}
			11 => {
				let len = if c % 3 == 0 { b % 80 } else { n };
				let seed = h3(state().spec.seed, 77, o.b as u64);
				let mut r1 = AnyRng::new((c % 6) as u8, seed);
				let mut r2 = AnyRng::new((c % 6) as u8, seed);
				let s1 = BinaryRepr::new_random(len, &mut r1);
				let s2 = BinaryRepr::new_random(len, &mut r2);
				let r = s1.to_vec();
				self.same_bits("a second state from the same random numbers", &s2, &r);
				if r1.next_u64() != r2.next_u64() {
					find(&self.who, "two equal random states took different numbers of random numbers".into())
				}
				put(&mut self.b, Bst { s: s1, r }, o.a)
			}
			12 | 13 | 14 if nb > 0 => {
				let x = &mut self.b[ib];
				if x.r.is_empty() {
					return;
				}
				let i = b % x.r.len();
				match o.code {
					12 => {
						x.s.set(i, c & 1 == 1);
						x.r[i] = c & 1 == 1;
					}
					13 => {
						x.s.flip(i);
						x.r[i] = !x.r[i];
					}
					_ if c & 1 == 0 => {
						unsafe { x.s.flip_unchecked(i) };
						x.r[i] = !x.r[i];
					}
					_ => {
						unsafe { x.s.set_unchecked(i, c & 2 == 2) };
						x.r[i] = c & 2 == 2;
					}
				}
			}
			15 if nb > 0 => {
				let x = self.b[ib].clone();
				put(&mut self.b, x, o.b)
			}
			16 if nb > 1 => {
				let src = self.b[ib].clone();
				let d = &mut self.b[b % nb];
				d.s.clone_from(&src.s);
				d.r = src.r;
			}
			17 if nb > 0 => self.same_bits(&format!("state {}", ib), &self.b[ib].s, &self.b[ib].r),
			18 if nb > 0 => {
				let x = &mut self.b[ib];
				let i = x.r.len() + b % 9;
				let ok = refuses(|| x.s.get(i))
					&& refuses(|| x.s[i])
					&& refuses(|| x.s.set(i, c & 1 == 1))
					&& refuses(|| x.s.flip(i));
				if !ok {
					find(&self.who, format!("state {}: it accepts bit {} of {}", ib, i, self.b[ib].r.len()))
				}
				self.same_bits(&format!("state {}", ib), &self.b[ib].s, &self.b[ib].r)
			}
			20 if nb > 0 => {
				let x = self.b[ib].clone();
				put(&mut self.s, Sol { s: SingleSolution::from_state(x.s), r: x.r, energy: None, field: None, occ: 1 }, o.b)
			}
			22 | 23 if ns > 0 && nm > 0 => {
				let m = &self.m[b % nm];
				let x = &mut self.s[is];
				if x.r.len() < m.r.need() {
					return;
				}
				if o.code == 22 {
					x.s = x.s.clone().with_energy(&m.p);
					x.energy.get_or_insert(m.r.energy(st.node, &x.r));
				} else {
					x.s = x.s.clone().with_local_field(&m.p);
					if x.field.is_none() {
						x.field = Some(m.r.field(st.node, &x.r))
					}
				}
				self.same_sol(&format!("solution {} (with what model {} says)", is, b % nm), &self.s[is]);
			}
			24 if ns > 0 && nm > 0 => {
				let m = &self.m[b % nm];
				self.look(&format!("model {}, solution {}", b % nm, is), m, &self.s[is], st.node);
			}
			26 if ns > 0 => {
				let x = &mut self.s[is];
				match c % 6 {
					0 | 1 if !x.r.is_empty() => {
						let i = b % x.r.len();
						x.s.state.flip(i);
						x.r[i] = !x.r[i];
					}
					2 => {
						x.s.energy = None;
						x.energy = None
					}
					3 => {
						x.s.local_field = None;
						x.field = None
					}
					4 => {
						x.s.occurrences = b;
						x.occ = b
					}
					_ => {
						x.s.energy = Some(R::lit(o.w));
						x.energy = Some(units(R::lit(o.w)))
					}
				}
			}
			27 if ns > 0 => {
				let x = self.s[is].clone();
				put(&mut self.s, x, o.b)
			}
			28 if ns > 0 => self.same_sol(&format!("solution {}", is), &self.s[is]),
			29 if ns > 0 => {
				let (x, y) = (&self.s[is], &self.s[b % ns]);
				let got = x.s.compare_energy(&y.s);
				let want = match (x.energy, y.energy) {
					(Some(a), Some(b)) => Some(a.cmp(&b)),
					_ => None,
				};
				if got != want {
					find(&self.who, format!("energies {:?} and {:?} compare as {:?}", x.energy, y.energy, got))
				}
			}
			31 if !shared.is_empty() => {
				let i = a % shared.len();
				same_model::<R, N, P>(&self.who, &format!("the common model {}", i), &shared[i].p, &shared[i].r)
			}
			32 if !shared.is_empty() && ns > 0 => {
				let i = b % shared.len();
				self.look(&format!("the common model {}, solution {}", i, is), &shared[i], &self.s[is], st.node)
			}
			_ => return,
		}
		note("operations", 1);
	}
	fn everything(&self) {
		let mut h = 0u64;
		for m in &self.m {
			for (k, w) in &m.r.w {
				h = h3(h, k.iter().fold(7, |a, i| a * 100 + *i as u64), *w as u64);
			}
		}
		for r in self.b.iter().map(|b| &b.r).chain(self.s.iter().map(|s| &s.r)) {
			h = h3(h, r.len() as u64, r.iter().fold(1, |a, b| a * 3 + *b as u64 & 0xffff_ffff_ffff));
		}
		{
			let _g = NoPreempt::new();
			state().rep.digests.push((self.who.clone(), format!("{:x}", h)));
		}
		for (i, m) in self.m.iter().enumerate() {
			same_model::<R, N, P>(&self.who, &format!("model {} in the end", i), &m.p, &m.r);
		}
		for (i, b) in self.b.iter().enumerate() {
			self.same_bits(&format!("state {} in the end", i), &b.s, &b.r);
		}
		for (i, s) in self.s.iter().enumerate() {
			self.same_sol(&format!("solution {} in the end", i), s);
		}
	}
}

fn play<R: Num, N: Mk<R>, P: Sm<R, N>>() {
	let st = &*Box::leak(Box::new(state().spec.store.clone().unwrap()));
	let mut w0 = World::<R, N, P> { m: vec![], b: vec![], s: vec![], who: "before the tasks".into(), _p: Default::default() };
	for o in st.ops.iter().filter(|o| o.task == 0) {
		w0.step(st, o, &[]);
	}
	let w0 = Share(&*Box::leak(Box::new(w0)));
	let body = |t: u8| {
		let w0 = w0.0;
		let mut w = World::<R, N, P> {
			m: w0.m.clone(),
			b: w0.b.clone(),
			s: w0.s.clone(),
			who: format!("task {}", t),
			_p: Default::default(),
		};
		for o in st.ops.iter().filter(|o| o.task == t) {
			w.step(st, o, &w0.m);
		}
		w.everything();
	};
	let body = Share(&body);
	std::thread::scope(|sc| {
		for t in 1..=st.tasks {
			let body = Share(body.0);
			sc.spawn(move || {
				let body = body;
				if let Err(e) = catch_unwind(AssertUnwindSafe(|| (body.0)(t))) {
					find(&format!("task {}", t), format!("panic: {}", panic_text(&*e)))
				}
			});
		}
	});
	w0.0.everything();
	note("nontrivial", 1);
}
fn with_node<R: Num, N: Mk<R>>(form: u8) {
	match form {
		0 => play::<R, N, FixedSingleQuadricModel<N>>(),
		1 => play::<R, N, SingleModel<N, Quadric>>(),
		_ => play::<R, N, SingleModel<N, HighOrder>>(),
	}
}
fn with_real<R: Num>(node: u8, form: u8) {
	match node {
		0 => with_node::<R, Binary<R>>(form),
		1 => with_node::<R, Spin<R>>(form),
		_ => with_node::<R, TwoVal<R>>(form),
	}
}
fn root() {
	let (real, node, form) = {
		let s = state().spec.store.as_ref().unwrap();
		(s.real, s.node, s.form)
	};
	let r = catch_unwind(AssertUnwindSafe(|| match real {
		0 => with_real::<f64>(node, form),
		1 => with_real::<f32>(node, form),
		2 => with_real::<i32>(node, form),
		3 => with_real::<i64>(node, form),
		_ => with_real::<i128>(node, form),
	}));
	if let Err(e) = r {
		find("before the tasks", format!("panic: {}", panic_text(&*e)));
	}
}

pub fn world(spec: &Spec, v: &Variant, shm: *mut Shm) -> Report {
	unsafe {
		STATE = Box::leak(Box::new(State { spec: spec.clone(), rep: Report::default(), log: vec![] }));
	}
	let (status, err) = crate::simulate(spec, v, shm, root);
	let mut r = std::mem::take(&mut state().rep);
	if let Some(e) = err {
		r.harness = Some(format!("the simulated root panicked: {}", e));
	}
	if status != simos::DONE && status != simos::HARNESS {
		r.find(&spec.prop, format!("it does not come to an end (status {})", status));
	}
	r.log = std::mem::take(&mut state().log);
	r.digests.sort();
	r
}
