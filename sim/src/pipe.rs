//! The pipeline: expressions compiled, fed and solved by caller threads with a backend under control.
use crate::mono::*;
use annealers::model::FixedSingleModelView;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::Real;
use core_ref::ast::Bits;
use core_ref::driver::{panic_text, Report};
use core_ref::hist::*;
use core_ref::lin::Quad;
use core_ref::model::{answers, Ctx};
use core_ref::oracle;
use core_ref::spec::*;
use rustqubo::Expr;
use simos::{st, NoPreempt, Shm};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

type CompiledOf<M> = rustqubo_compiled::Compiled<M>;
/// The compiled model's type cannot be named; hide it behind closures.
mod rustqubo_compiled {
	use crate::mono::*;
	/// Makes solvers for one compiled model.
	pub struct Compiled<M: Mono> {
		pub solver: Box<dyn Fn(crate::pipe::Backend<M>) -> Solv<M>>,
	}
}

/// The simulated threads share things whether or not their types are Sync: a lost Sync is not what we look for.
pub struct Share<T>(pub T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

pub struct State {
	pub spec: Spec,
	pub cxs: Vec<Ctx>,
	pub hist: Hist,
	/// caller by simulated thread
	bytid: [Option<u32>; simos::MAXT],
	/// running solve by caller
	active: Vec<Option<usize>>,
	/// running probe by problem
	probing: Vec<Option<usize>>,
	/// problems that somebody has compiled
	claimed: Vec<bool>,
	only: Option<u32>,
	skip: u32,
	/// callers that have done everything
	done: Vec<bool>,
	/// faults that happened, by code
	fired: Vec<u64>,
	log: Vec<String>,
}
static mut STATE: *mut State = std::ptr::null_mut();
/// Only under NoPreempt.
fn state() -> &'static mut State {
	unsafe { &mut *STATE }
}

#[derive(Debug)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "simulated failure {}", self.0)
	}
}
impl std::error::Error for SimErr {}
/// Payload of panics raised by the simulated backend.
pub struct Inj(pub u64);

#[derive(Clone, Copy, PartialEq)]
enum Who {
	Probe(usize),
	Own(u32),
	Shared,
}

pub struct Backend<M: Mono> {
	who: Who,
	_p: PhantomData<fn() -> M>,
}
pub struct Sim<M: Mono> {
	model: &'static P<M::R>,
	/// index of the solve, none if it is not known whose this is
	solve: Option<usize>,
	gen: usize,
}

fn digest<R: Real>(m: &P<R>) -> u64 {
	let n = FixedSingleModelView::size(m);
	if n > 4096 {
		return 0xdead;
	}
	let mut h = simos::mix(n as u64);
	for j in 0..n {
		for i in 0..=j {
			h = simos::h2(h, FixedSingleModelView::get_weight(m, &[i, j]).as_f64().to_bits());
		}
	}
	h
}
fn quad<R: Num>(m: &P<R>) -> Quad {
	let n = FixedSingleModelView::size(m);
	let (mut w, mut wi) = (vec![], vec![]);
	for j in 0..n {
		for i in 0..=j {
			let x = FixedSingleModelView::get_weight(m, &[i, j]);
			w.push(x.as_f64());
			wi.extend(x.int());
		}
	}
	Quad { n, w, wi }
}

fn find_fault(s: &Spec, caller: u32, solve: u32, round: usize, sample: usize, kinds: &[Fk]) -> Option<Fault> {
	s.faults
		.iter()
		.find(|f| {
			f.caller == caller
				&& f.solve == solve
				&& f.round as usize == round
				&& f.sample as usize == sample
				&& kinds.contains(&f.kind)
		})
		.cloned()
}
/// Whether a fault happens; some happen only once.
fn strikes(st: &mut State, f: &Fault) -> bool {
	if st.spec.transient && st.fired.contains(&f.arg) {
		return false;
	}
	st.fired.push(f.arg);
	true
}
fn per_round(st: &State, s: &Solve) -> usize {
	if s.probe.is_some() {
		1
	} else {
		st.spec.settings(s.caller, s.idx).0 as usize
	}
}

impl<M: Mono> SolverGenerator<'static, P<M::R>> for Backend<M> {
	type SolverType = Sim<M>;
	type ErrorType = SimErr;
	fn generate(&self, model: &'static P<M::R>) -> Result<Sim<M>, SimErr> {
		let guard = NoPreempt::new();
		let s = state();
		let solve = match self.who {
			Who::Probe(m) => s.probing[m],
			Who::Own(c) => s.active[c as usize],
			Who::Shared => s.bytid[simos::tid()].and_then(|c| s.active[c as usize]),
		};
		let si = match solve {
			Some(x) => x,
			None => {
				s.hist.unattributed += 1;
				return Ok(Sim { model, solve: None, gen: 0 });
			}
		};
		let seq = s.hist.seq;
		s.hist.seq += 1;
		let d = digest(model);
		let samples = per_round(s, &s.hist.solves[si]);
		let k = s.hist.solves[si].gens.len();
		let same = k % samples != 0 && s.hist.solves[si].gens.last().map_or(false, |g| g.digest == d);
		let mat = if same {
			s.hist.solves[si].gens.last().unwrap().mat
		} else {
			let q = if FixedSingleModelView::size(model) > 120 {
				s.hist.too_large = true;
				Quad { n: 0, w: vec![], wi: vec![] }
			} else {
				quad(model)
			};
			s.hist.mats.push(q);
			s.hist.mats.len() - 1
		};
		let mut g = Gen {
			k,
			seq,
			ptr: model as *const _ as usize,
			digest: d,
			err: None,
			panicked: None,
			mat,
			drop_seq: None,
			drop_digest: 0,
		};
		let (c, i, probe) = {
			let v = &s.hist.solves[si];
			(v.caller, v.idx, v.probe.is_some())
		};
		let f = if probe { None } else { find_fault(&s.spec, c, i, k / samples, k % samples, &[Fk::GenErr, Fk::GenPanic]) };
		let f = f.filter(|f| strikes(s, f));
		match f.as_ref().map(|f| f.kind) {
			Some(Fk::GenErr) => g.err = Some(f.as_ref().unwrap().arg),
			Some(Fk::GenPanic) => g.panicked = Some(f.as_ref().unwrap().arg),
			_ => {}
		}
		s.hist.solves[si].gens.push(g);
		drop(guard);
		match f.map(|f| (f.kind, f.arg)) {
			Some((Fk::GenErr, a)) => {
				simos::stat_add(st::GEN_ERR, 1);
				Err(SimErr(a))
			}
			Some((_, a)) => {
				simos::stat_add(st::PANIC, 1);
				std::panic::panic_any(Inj(a))
			}
			None => Ok(Sim { model, solve: Some(si), gen: k }),
		}
	}
}
impl<M: Mono> UnstructuredSolverGenerator<'static, P<M::R>> for Backend<M> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<M: Mono> Solver for Sim<M> {
	type ErrorType = SimErr;
	type SolutionType = SingleSolution<Binary<M::R>>;
}
impl<M: Mono> Drop for Sim<M> {
	fn drop(&mut self) {
		let _g = NoPreempt::new();
		let s = state();
		if let Some(si) = self.solve {
			let seq = s.hist.seq;
			s.hist.seq += 1;
			let d = digest(self.model);
			let g = &mut s.hist.solves[si].gens[self.gen];
			g.drop_seq = Some(seq);
			g.drop_digest = d;
		}
	}
}

#[inline(never)]
fn work(n: u64) -> u64 {
	let mut x = 1u64;
	for i in 0..n {
		if x & 1 == 0 {
			x = x / 2 + i
		} else {
			x = x.wrapping_mul(3) + 1
		}
	}
	x
}

impl<M: Mono> ClassicalSolver for Sim<M> {
	fn solve_with_rng<T: rand::Rng>(&self, r: &mut T) -> Result<Vec<SingleSolution<Binary<M::R>>>, SimErr> {
		let draws = [r.next_u64(), r.next_u64(), r.next_u64(), r.next_u64()];
		let si = match self.solve {
			Some(s) => s,
			None => return Ok(vec![SingleSolution::from_vec(&vec![false; FixedSingleModelView::size(self.model)])]),
		};
		let guard = NoPreempt::new();
		let s = state();
		let seq = s.hist.seq;
		s.hist.seq += 1;
		let d = digest(self.model);
		let samples = per_round(s, &s.hist.solves[si]);
		let v = &mut s.hist.solves[si];
		let (k, caller, idx, probe, m) = (self.gen, v.caller, v.idx, v.probe, v.model);
		let ri = v.runs.len();
		v.runs.push(Run {
			k,
			start: seq,
			end: None,
			digest0: d,
			digest1: 0,
			ans: vec![],
			err: None,
			panicked: None,
			draws,
			tid: simos::tid(),
		});
		let mat = v.gens[k].mat;
		s.hist.active += 1;
		if s.hist.active > 1 {
			s.hist.overlap += 1;
			simos::stat_add(st::OVERLAP, 1);
		}
		let (round, sample) = (k / samples, k % samples);
		let f = |kinds: &[Fk]| {
			if probe.is_some() {
				None
			} else {
				find_fault(&state().spec, caller, idx, round, sample, kinds)
			}
		};
		let stall = f(&[Fk::Stall]);
		let nested = f(&[Fk::Nested]);
		let gate = f(&[Fk::Gate]).filter(|_| {
			let s = state();
			s.only.is_none() && s.spec.intask == 0 && s.spec.callers[caller as usize].pool > 0
		});
		let bad = f(&[Fk::SolveErr, Fk::Panic]).filter(|f| strikes(state(), f));
		let empty = f(&[Fk::Empty]);
		drop(guard);
		work(20 + (draws[0] & 63));
		if let Some(f) = stall {
			simos::stat_add(st::STALL, 1);
			simos::sleep_ns(f.arg);
		}
		if gate.is_some() {
			simos::stat_add(st::GATE, 1);
			for t in 0.. {
				{
					let _g = NoPreempt::new();
					let s = state();
					let left: Vec<u32> =
						(0..s.done.len() as u32).filter(|c| *c != caller && !s.done[*c as usize]).collect();
					if left.is_empty() {
						break;
					}
					if t == 24 {
						s.hist.held_up.extend(left.into_iter().map(|c| (caller, c)));
						break;
					}
				}
				simos::sleep_ns(36_000_000_000_000);
			}
		}
		if nested.is_some() {
			simos::stat_add(st::NESTED, 1);
			rayon::join(|| work(40), || work(60));
		}
		work(20 + (draws[1] & 63));
		let guard = NoPreempt::new();
		let s = state();
		let d = digest(self.model);
		let q = &s.hist.mats[mat];
		let ans = if bad.is_some() {
			vec![]
		} else if let Some(bit) = probe {
			let x = (0..q.n).fold(0 as Bits, |x, i| if i >> bit & 1 == 1 { x | 1 << i } else { x });
			vec![Ans { x, preset: false, field: false, occ: 1 }]
		} else if empty.is_some() {
			simos::stat_add(st::EMPTY, 1);
			vec![]
		} else {
			answers(&s.spec, &s.cxs[m], q, s.hist.models[m].map.as_deref(), caller, idx, round, sample, samples as u32)
		};
		let n = FixedSingleModelView::size(self.model).min(4096);
		let q = q.clone();
		let seq = s.hist.seq;
		s.hist.seq += 1;
		s.hist.active -= 1;
		let r = &mut s.hist.solves[si].runs[ri];
		r.end = Some(seq);
		r.digest1 = d;
		r.ans = ans.clone();
		match bad.as_ref().map(|f| (f.kind, f.arg)) {
			Some((Fk::SolveErr, a)) => r.err = Some(a),
			Some((_, a)) => r.panicked = Some(a),
			None => {}
		}
		drop(guard);
		match bad.map(|f| (f.kind, f.arg)) {
			Some((Fk::SolveErr, a)) => {
				simos::stat_add(st::SOLVE_ERR, 1);
				return Err(SimErr(a));
			}
			Some((_, a)) => {
				simos::stat_add(st::PANIC, 1);
				std::panic::panic_any(Inj(a))
			}
			None => {}
		}
		let mut out = vec![];
		for a in ans {
			let bits: Vec<bool> = (0..n).map(|i| i < 128 && a.x >> i & 1 == 1).collect();
			let mut o = SingleSolution::from_vec(&bits);
			if a.preset {
				o.energy = Some(match q.energy_i(a.x) {
					Some(e) => M::R::from_int(e),
					None => M::R::from_f64(q.energy(a.x)),
				});
			}
			if a.field {
				o.local_field = Some(
					(0..n)
						.map(|i| match q.flip_i(a.x, i) {
							Some(e) => M::R::from_int(e),
							None => M::R::from_f64(q.flip(a.x, i)),
						})
						.collect(),
				);
			}
			o.occurrences = a.occ;
			out.push(o);
		}
		Ok(out)
	}
}

fn text(e: Box<dyn std::any::Any + Send>) -> Result<u64, String> {
	match e.downcast::<Inj>() {
		Ok(i) => Ok(i.0),
		Err(e) => Err(panic_text(&*e)),
	}
}

fn phase(m: usize, p: Phase) {
	let _g = NoPreempt::new();
	state().hist.models[m].failed = Some((p as u8, "does not come to an end".into()));
}
fn fail(m: usize, p: Phase, e: Box<dyn std::any::Any + Send>) {
	let _g = NoPreempt::new();
	state().hist.models[m].failed = Some((p as u8, text(e).err().unwrap_or_default()));
}
fn fine(m: usize) {
	let _g = NoPreempt::new();
	state().hist.models[m].failed = None;
}
macro_rules! step {
	($m:expr, $p:expr, $e:expr) => {{
		phase($m, $p);
		match catch_unwind(AssertUnwindSafe(|| $e)) {
			Ok(x) => x,
			Err(e) => {
				fail($m, $p, e);
				return None;
			}
		}
	}};
}

/// What was compiled (of a type that cannot be named), to be fed for problem m. With `last` the compiled
/// model itself is used up, otherwise a copy.
type Compiled<M> = Share<Box<dyn Fn(usize, bool) -> Option<CompiledOf<M>>>>;

/// Builds and compiles problem m; what goes wrong is recorded.
fn compile<M: Mono>(m: usize) -> Option<Compiled<M>> {
	let (ast, ph, direct, missing, style) = {
		let _g = NoPreempt::new();
		let s = state();
		let used = s.spec.exprs[m].phs();
		let live = used.iter().any(|p| s.spec.ph[*p as usize].1 != 0);
		let missing = used.iter().any(|p| s.spec.ph[*p as usize].1 == 3);
		let style = simos::h2(s.spec.seed, m as u64);
		(s.spec.exprs[m].clone(), s.spec.ph.clone(), !live && (s.spec.seed >> 3) & 1 == 0, missing, style)
	};
	if direct {
		let e: Expr<(), M::Tq, M::Tc, M::R> = step!(m, Phase::Build, build::<M, ()>(&ast, &ph, style));
		// (walking over it without changing anything)
		let e = if style >> 40 & 3 == 0 { step!(m, Phase::Build, e.map(&mut |e| e)) } else { e };
		let c = std::cell::UnsafeCell::new(Some(step!(m, Phase::Compile, e.compile())));
		fine(m);
		return Some(Share(Box::new(move |m, last| {
			let c = if last {
				unsafe { (*c.get()).take().unwrap() }
			} else {
				step!(m, Phase::Compile, unsafe { (*c.get()).as_ref().unwrap().clone() })
			};
			let c = if style >> 42 & 3 == 0 { step!(m, Phase::Compile, c.clone()) } else { c };
			let c = Share(&*Box::leak(Box::new(c)));
			fine(m);
			Some(CompiledOf::<M> { solver: Box::new(move |b| rustqubo::solve::SimpleSolver::with_solver(c.0, b)) })
		})));
	}
	let e: Expr<M::Tp, M::Tq, M::Tc, M::R> = step!(m, Phase::Build, build::<M, M::Tp>(&ast, &ph, style));
	let dict = |stage: u8| -> HashMap<M::Tp, M::R> {
		ph.iter()
			.enumerate()
			.filter(|(_, p)| p.1 == stage)
			.map(|(i, p)| (<M::Tp as Lab>::make(i as u8), <M::R as Num>::lit(p.0)))
			.collect()
	};
	let d1 = dict(1);
	let e = match style >> 40 & 7 {
		_ if d1.is_empty() => e,
		0 => {
			// one after the other, some again, which changes nothing any more
			let mut e = e;
			let mut seen: HashMap<M::Tp, M::R> = HashMap::new();
			for (k, v) in &d1 {
				seen.insert(k.clone(), *v);
				e = step!(m, Phase::FeedExpr, e.feed_dict(&seen));
				seen.insert(k.clone(), *v + *v);
			}
			e
		}
		1 => step!(
			m,
			Phase::FeedExpr,
			e.map(&mut |e| match e {
				Expr::Placeholder(p) => match d1.get(&p) {
					Some(v) => Expr::Number(*v),
					None => Expr::Placeholder(p),
				},
				e => e,
			})
		),
		_ => step!(m, Phase::FeedExpr, e.feed_dict(&d1)),
	};
	let c = std::cell::UnsafeCell::new(Some(step!(m, Phase::Compile, e.compile())));
	let mut d2 = dict(2);
	if style >> 44 & 3 == 0 {
		// values for placeholders that have gone, or never were
		for (k, v) in d1 {
			d2.entry(k).or_insert(v + v);
		}
		d2.entry(M::Tp::make(100)).or_insert(M::R::from_i32(3));
	}
	fine(m);
	Some(Share(Box::new(move |m, last| {
		let c = if last {
			unsafe { (*c.get()).take().unwrap() }
		} else {
			step!(m, Phase::Compile, unsafe { (*c.get()).as_ref().unwrap().clone() })
		};
		let c = step!(m, Phase::FeedCompiled, c.feed_dict(d2.clone()));
		let c = if style >> 47 & 3 == 0 { step!(m, Phase::FeedCompiled, c.clone()) } else { c };
		if missing {
			let _g = NoPreempt::new();
			state().hist.models[m].accepted_incomplete = true;
		}
		let c = Share(&*Box::leak(Box::new(c)));
		fine(m);
		if missing {
			// it should have been refused, so there is no telling what it means
			return None;
		}
		Some(CompiledOf::<M> { solver: Box::new(move |b| rustqubo::solve::SimpleSolver::with_solver(c.0, b)) })
	})))
}

fn make_solver<M: Mono>(c: &CompiledOf<M>, who: Who) -> Solv<M> {
	let mut s = (c.solver)(Backend { who, _p: PhantomData });
	adjust::<M>(&mut s, 0, 0);
	if let Who::Probe(_) = who {
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
	}
	s
}
/// Changes the settings to those of this solve.
fn adjust<M: Mono>(s: &mut Solv<M>, caller: u32, idx: u32) {
	let (samples, iters, gens, strength) = {
		let _g = NoPreempt::new();
		state().spec.settings(caller, idx)
	};
	s.samples = samples as usize;
	s.iterations = iters as usize;
	s.generations = gens as usize;
	s.coeff_strength = M::R::lit(strength);
}

fn extract<M: Mono>(
	cx: &Ctx,
	e: M::R,
	v: &rustqubo::solution::SolutionView<M::Tq, M::R>,
	labels: Option<Vec<u8>>,
	base: u8,
) -> OkRec {
	let mut r = OkRec { energy: e.as_f64(), exact: e.exact(), energy_i: e.int(), labels, ..Default::default() };
	let res = catch_unwind(AssertUnwindSafe(|| {
		for i in &cx.vars {
			let q = <M::Tq as Lab>::make(*i);
			let b = v.get(&q);
			r.bits.push(b);
			r.want_keys.push(format!("{:?}", q));
		}
		r.keys = v.keys().map(|k| format!("{:?}", k)).collect();
		r.keys.sort();
		r.want_keys.sort();
		if r.bits.iter().any(|b| b.is_none()) {
			return;
		}
		for i in &cx.vars {
			let q = <M::Tq as Lab>::make(*i);
			r.index.push(Some(v[&q]));
			r.field.push(v.local_field(&q).map(|x| x.as_f64()));
			r.field_i.push(v.local_field(&q).and_then(|x| x.int()));
		}
		r.unknown_is_none = (0..128)
			.filter(|i| !cx.vars.contains(i) && (*i == base || *i % 7 == 0))
			.all(|i| v.get(&<M::Tq as Lab>::make(i)).is_none());
		r.occ = v.occurrences();
		r.inner = v.energy().map(|e| e.as_f64());
		r.inner_i = v.energy().and_then(|e| e.int());
		// what is printed, in some order
		let text = format!("{:?}", v);
		let want: Vec<String> = cx
			.vars
			.iter()
			.map(|i| <M::Tq as Lab>::make(*i))
			.map(|q| format!("{:?}: {:?}", q, v.get(&q).unwrap()))
			.collect();
		let len = 2 + want.iter().map(|s| s.len()).sum::<usize>() + 2 * want.len().saturating_sub(1);
		if text.len() != len || want.iter().any(|w| !text.contains(w.as_str())) {
			r.printed = Some(text);
		}
	}));
	if let Err(e) = res {
		r.accessor_panic = Some(text(e).err().unwrap_or_default());
	}
	r
}

fn one_solve<M: Mono>(solver: &Solv<M>, caller: u32, idx: u32, model: usize, probe: Option<u32>) -> usize {
	// the hash seed of this thread is made before entropy may fail
	drop(std::hint::black_box(HashMap::<u8, u8>::new()));
	let (si, plain) = {
		let _g = NoPreempt::new();
		let s = state();
		let seq = s.hist.seq;
		s.hist.seq += 1;
		let entfail = match s.spec.entfail {
			Some((c, i, after)) if probe.is_none() && c == caller && i == idx => Some(after),
			_ => None,
		};
		s.hist.solves.push(Solve {
			caller,
			idx,
			model,
			probe,
			start: seq,
			end: u64::MAX,
			out: Out::Unfinished,
			gens: vec![],
			runs: vec![],
			entropy_failed: entfail == Some(0),
			ent_bytes: simos::stat(st::ENT_BYTES),
		});
		let si = s.hist.solves.len() - 1;
		if probe.is_some() {
			s.probing[model] = Some(si);
		} else {
			s.active[caller as usize] = Some(si);
		}
		if let Some(a) = entfail {
			simos::fail_entropy(true, a);
		}
		(si, s.spec.plain && probe.is_none())
	};
	let failed0 = simos::stat(st::ENT_FAIL);
	let r = catch_unwind(AssertUnwindSafe(|| {
		if plain {
			if let Some(r) = M::plain(solver) {
				return r.map(|(e, v)| (e, v, None));
			}
		}
		solver.solve_with_constraints().map(|(e, v, l)| {
			let l: Vec<M::Tc> = l.into_iter().cloned().collect();
			(e, v, Some(l))
		})
	}));
	{
		let _g = NoPreempt::new();
		let s = state();
		simos::fail_entropy(false, 0);
		let seq = s.hist.seq;
		s.hist.seq += 1;
		let v = &mut s.hist.solves[si];
		v.end = seq;
		if simos::stat(st::ENT_FAIL) > failed0 {
			v.entropy_failed = true;
		}
		v.ent_bytes = simos::stat(st::ENT_BYTES) - v.ent_bytes;
	}
	let out = match r {
		Ok(Ok((e, v, l))) => {
			let l = l.map(|l| {
				let mut l: Vec<u8> =
					l.iter().map(|c| (0..128).find(|i| &<M::Tc as Lab>::make(*i) == c).unwrap_or(255)).collect();
				l.sort();
				l
			});
			let cx = {
				let _g = NoPreempt::new();
				&state().cxs[model]
			};
			Out::Ok(Box::new(extract::<M>(cx, e, &v, l, 127)))
		}
		Ok(Err(e)) => Out::Err(e.0),
		Err(p) => match text(p) {
			Ok(c) => Out::Injected(c),
			Err(m) => Out::Panic(m),
		},
	};
	let _g = NoPreempt::new();
	let s = state();
	s.hist.solves[si].out = out;
	if probe.is_some() {
		s.probing[model] = None;
	} else {
		s.active[caller as usize] = None;
	}
	si
}

/// Finds out which bit belongs to which variable.
fn probe_model<M: Mono>(c: &CompiledOf<M>, m: usize) -> bool {
	let solver = match catch_unwind(AssertUnwindSafe(|| make_solver::<M>(c, Who::Probe(m)))) {
		Ok(s) => s,
		Err(e) => {
			let _g = NoPreempt::new();
			state().hist.models[m].failed = Some((Phase::Solver as u8, text(e).err().unwrap_or_default()));
			return false;
		}
	};
	{
		let _g = NoPreempt::new();
		let mut v: Vec<String> = solver.get_qubits().into_iter().map(|q| format!("{:?}", q)).collect();
		v.sort();
		state().hist.models[m].listed = Some(v);
	}
	let mut bit = 0;
	let mut nbits = 1;
	let mut map: Vec<usize> = vec![];
	while bit < nbits {
		let si = one_solve::<M>(&solver, 1000 + m as u32, bit, m, Some(bit));
		let _g = NoPreempt::new();
		let s = state();
		let (nv, mats) = (s.cxs[m].vars.len(), &s.hist.mats);
		let sv = &s.hist.solves[si];
		let rec = match &sv.out {
			Out::Ok(r) if r.bits.len() == nv && r.bits.iter().all(|b| b.is_some()) => r,
			_ => return true,
		};
		if bit == 0 {
			let n = match sv.gens.first() {
				Some(g) => mats[g.mat].n,
				None => return true,
			};
			s.hist.models[m].n = n;
			while 1usize << nbits < n {
				nbits += 1;
			}
			map = vec![0; nv];
		}
		for (p, b) in rec.bits.iter().enumerate() {
			if *b == Some(true) {
				map[p] |= 1 << bit;
			}
		}
		bit += 1;
	}
	let _g = NoPreempt::new();
	let s = state();
	let n = s.hist.models[m].n;
	let mut u = map.clone();
	u.sort();
	u.dedup();
	if u.len() == map.len() && map.iter().all(|i| *i < n.max(1)) {
		s.hist.models[m].map = Some(map);
	}
	true
}

fn root<M: Mono>() {
	let (nm, callers, only, skip) = {
		let _g = NoPreempt::new();
		let s = state();
		(s.spec.exprs.len(), s.spec.callers.clone(), s.only, s.skip)
	};
	let each = {
		let _g = NoPreempt::new();
		state().spec.each
	};
	if each > 0 {
		let mut common = None;
		if each == 2 {
			match compile::<M>(0) {
				Some(c) => common = Some(c),
				None => return,
			}
		}
		let common: &'static Option<Compiled<M>> = Box::leak(Box::new(common));
		let act = move |ci: u32, c: Caller| {
			{
				let _g = NoPreempt::new();
				let s = state();
				if only.map_or(false, |o| o != ci) || std::mem::replace(&mut s.claimed[c.model], true) {
					return;
				}
			}
			let model = match common {
				Some(x) => (x.0)(c.model, false),
				None => compile::<M>(c.model).and_then(|x| (x.0)(c.model, true)),
			};
			let model = match model {
				Some(m) => m,
				None => return,
			};
			if !probe_model(&model, c.model) {
				return;
			}
			let too_large = {
				let _g = NoPreempt::new();
				state().hist.too_large
			};
			if too_large {
				return;
			}
			let mut own = Share(make_solver::<M>(&model, Who::Own(ci)));
			for i in skip..c.solves {
				adjust::<M>(&mut own.0, ci, i);
				one_solve::<M>(&own.0, ci, i, c.model, None);
			}
			let _g = NoPreempt::new();
			state().done[ci as usize] = true;
		};
		let mut hs = vec![];
		{
			let _g = NoPreempt::new();
			for (ci, c) in callers.iter().cloned().enumerate() {
				hs.push(std::thread::spawn(move || act(ci as u32, c)));
			}
		}
		for h in hs {
			if let Err(e) = h.join() {
				std::panic::resume_unwind(e);
			}
		}
		return;
	}
	let mut models: Vec<Option<CompiledOf<M>>> = vec![];
	for m in 0..nm {
		let c = compile::<M>(m).and_then(|x| (x.0)(m, true));
		if let Some(c) = &c {
			if !probe_model(c, m) {
				models.push(None);
				continue;
			}
		}
		models.push(c);
	}
	if models.iter().any(|m| m.is_none()) || state().hist.too_large {
		return;
	}
	let models: &'static Vec<Share<CompiledOf<M>>> =
		Box::leak(Box::new(models.into_iter().map(|m| Share(m.unwrap())).collect::<Vec<_>>()));
	let shared: &'static Vec<Share<Solv<M>>> =
		Box::leak(Box::new(models.iter().map(|m| Share(make_solver::<M>(&m.0, Who::Shared))).collect::<Vec<_>>()));
	for s in shared {
		simos::hot(s);
	}
	let intask = {
		let _g = NoPreempt::new();
		state().spec.intask
	};
	let act = move |ci: u32, c: Caller| {
		if only.map_or(false, |o| o != ci) {
			return;
		}
		let mut own = if c.shared { None } else { Some(Share(make_solver::<M>(&models[c.model].0, Who::Own(ci)))) };
		let mut body = || {
			for i in 0..c.solves {
				if i < skip {
					continue;
				}
				// (a thread that waits in one caller's solve may take up another caller's)
				let before = {
					let _g = NoPreempt::new();
					std::mem::replace(&mut state().bytid[simos::tid()], Some(ci))
				};
				match own.as_mut() {
					Some(s) => {
						adjust::<M>(&mut s.0, ci, i);
						one_solve::<M>(&s.0, ci, i, c.model, None);
					}
					None => {
						one_solve::<M>(&shared[c.model].0, ci, i, c.model, None);
					}
				}
				let _g = NoPreempt::new();
				state().bytid[simos::tid()] = before;
			}
		};
		if c.pool > 0 && intask == 0 {
			// (the body goes to another thread and comes back)
			let body = Share(std::cell::UnsafeCell::new(body));
			let run = || {
				let b = &body;
				unsafe { (*b.0.get())() }
			};
			match rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build() {
				Ok(p) => p.install(run),
				Err(_) => run(),
			}
		} else {
			body()
		}
		let _g = NoPreempt::new();
		state().done[ci as usize] = true;
	};
	if intask > 0 {
		let all = |s: &rayon::Scope<'_>| {
			for (ci, c) in callers.iter().cloned().enumerate() {
				s.spawn(move |_| act(ci as u32, c));
			}
		};
		// (1 and 3: the tasks wait in the common queue of the pool, not in that of one worker)
		match (intask / 20, intask % 20) {
			(0, n) => {
				if let Ok(p) = rayon::ThreadPoolBuilder::new().num_threads(n as usize).build() {
					p.scope(all)
				}
			}
			(1, n) => {
				if let Ok(p) = rayon::ThreadPoolBuilder::new().num_threads(n as usize).build() {
					p.in_place_scope(all)
				}
			}
			(2, _) => rayon::scope(all),
			_ => rayon::in_place_scope(all),
		}
		return;
	}
	let mut hs = vec![];
	{
		let _g = NoPreempt::new();
		for (ci, c) in callers.iter().cloned().enumerate() {
			hs.push(std::thread::spawn(move || act(ci as u32, c)));
		}
	}
	for h in hs {
		if let Err(e) = h.join() {
			std::panic::resume_unwind(e);
		}
	}
}

pub fn world(spec: &Spec, v: &Variant, shm: *mut Shm) -> Report {
	let cxs = (0..spec.exprs.len()).map(|m| Ctx::new(spec, m)).collect();
	let mut hist = Hist::default();
	hist.models = vec![ModelHist::default(); spec.exprs.len()];
	let s = Box::leak(Box::new(State {
		spec: spec.clone(),
		cxs,
		hist,
		bytid: [None; simos::MAXT],
		active: vec![None; spec.callers.len()],
		probing: vec![None; spec.exprs.len()],
		claimed: vec![false; spec.exprs.len()],
		only: v.only,
		skip: v.skip,
		done: vec![false; spec.callers.len()],
		fired: vec![],
		log: vec![],
	}));
	unsafe { STATE = s };
	let f: fn() = match spec.mono {
		0 => root::<M0>,
		1 => root::<M1>,
		2 => root::<M2>,
		3 => root::<M3>,
		4 => root::<M4>,
		6 => root::<M6>,
		_ => root::<M5>,
	};
	let (status, err) = crate::simulate(spec, v, shm, f);
	let mut r = Report::default();
	let s = state();
	if let Some(e) = err {
		r.harness = Some(format!("the simulated root panicked: {}", e));
		return r;
	}
	let h = &s.hist;
	if h.too_large {
		r.note("too_large", 1);
		return r;
	}
	if h.unattributed > 0 {
		r.note("unattributed", h.unattributed);
		return r;
	}
	let f = oracle::check(spec, h, &s.cxs, status);
	for x in f.v {
		r.find(x.prop, x.msg);
	}
	for (k, n) in f.notes {
		r.note(k, n);
	}
	let fed = spec.ph.iter().any(|p| p.1 == 1 || p.1 == 2);
	for sv in &h.solves {
		if sv.probe.is_some() {
			continue;
		}
		r.digests.push((format!("{}/{}", sv.caller, sv.idx), oracle::digest(sv)));
		for x in &sv.runs {
			r.draws.extend(x.draws.iter());
		}
		r.note("runs", sv.runs.len() as u64);
		r.note("answers", sv.runs.iter().map(|x| x.ans.len() as u64).sum());
		r.note("rounds", (sv.gens.len() as u64).div_ceil(spec.settings(sv.caller, sv.idx).0 as u64));
		if let Out::Ok(o) = &sv.out {
			r.note("solves_ok", 1);
			if fed && !spec.exprs[sv.model].phs().is_empty() {
				r.note("fed", 1);
			}
			if o.labels.is_some() && !s.cxs[sv.model].labels.is_empty() {
				r.note("labelled_reports", 1);
			}
		}
	}
	r.digests.sort();
	r.note("overlaps", h.overlap);
	r.log = std::mem::take(&mut s.log);
	for (m, mh) in h.models.iter().enumerate() {
		r.log.push(format!("problem {}: {:?}", m, mh));
	}
	for sv in &h.solves {
		r.log.push(format!(
			"caller {} solve {} problem {}{}: {} samples made, {} run, [{}..{}]: {}",
			sv.caller,
			sv.idx,
			sv.model,
			if sv.probe.is_some() { " (probe)" } else { "" },
			sv.gens.len(),
			sv.runs.len(),
			sv.start,
			sv.end,
			oracle::digest(sv)
		));
		for g in sv.gens.iter().take(40) {
			r.log.push(format!(
				"  sample {} made at {} of problem {:x}{}{} dropped {:?}",
				g.k,
				g.seq,
				g.digest,
				g.err.map_or(String::new(), |e| format!(" error {}", e)),
				g.panicked.map_or(String::new(), |e| format!(" panic {}", e)),
				g.drop_seq
			));
		}
		for x in sv.runs.iter().take(40) {
			r.log.push(format!(
				"  sample {} ran {}..{:?} on thread {}{}{} answers {:?}",
				x.k,
				x.start,
				x.end,
				x.tid,
				x.err.map_or(String::new(), |e| format!(" error {}", e)),
				x.panicked.map_or(String::new(), |e| format!(" panic {}", e)),
				x.ans.iter().map(|a| format!("{:b}{}", a.x, if a.preset { "*" } else { "" })).collect::<Vec<_>>()
			));
		}
		if r.log.len() > 300 {
			break;
		}
	}
	r
}
