//! The annealer by itself.
use crate::mono::Num;
use crate::pipe::Share;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::{HighOrder, Quadric};
use annealers::repr::BinaryRepr;
use annealers::solver::{ClassicalSolver, SolverGenerator};
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::{SimulatedAnnealer, SimulatedAnnealerGenerator};
use core_ref::ast::Lit;
use core_ref::driver::{panic_text, Report};
use core_ref::lin::chi2_log10_sf;
use core_ref::spec::*;
use rand::rngs::{SmallRng, StdRng};
use rand::{RngCore, SeedableRng};
use simos::{h3, NoPreempt, Prng, Shm};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The caller's random generator.
pub enum AnyRng {
	Std(StdRng),
	Small(SmallRng),
	Zeros,
	Ones,
	Counter(u64),
	Alternate(bool),
	/// gives up after so many numbers
	Ends(Box<AnyRng>, u64),
}
impl AnyRng {
	fn count(&mut self) {
		if let AnyRng::Ends(_, left) = self {
			if *left == 0 {
				simos::stat_add(simos::st::GIVEUP, 1);
				panic!("the random generator gives up");
			}
			*left -= 1;
		}
	}

	pub fn new(kind: u8, seed: u64) -> AnyRng {
		if kind >= 2 {
			simos::stat_add(simos::st::BADRNG, 1);
		}
		match kind {
			0 => AnyRng::Std(StdRng::seed_from_u64(seed)),
			1 => AnyRng::Small(SmallRng::seed_from_u64(seed)),
			2 => AnyRng::Zeros,
			3 => AnyRng::Ones,
			4 => AnyRng::Counter(seed),
			_ => AnyRng::Alternate(false),
		}
	}
}
impl RngCore for AnyRng {
	fn next_u32(&mut self) -> u32 {
		self.count();
		match self {
			AnyRng::Ends(r, _) => r.next_u32(),
			AnyRng::Std(r) => r.next_u32(),
			AnyRng::Small(r) => r.next_u32(),
			_ => self.next_u64() as u32,
		}
	}
	fn next_u64(&mut self) -> u64 {
		self.count();
		match self {
			AnyRng::Ends(r, _) => r.next_u64(),
			AnyRng::Std(r) => r.next_u64(),
			AnyRng::Small(r) => r.next_u64(),
			AnyRng::Zeros => 0,
			AnyRng::Ones => !0,
			AnyRng::Counter(c) => {
				*c = c.wrapping_add(1);
				*c
			}
			AnyRng::Alternate(b) => {
				*b = !*b;
				if *b {
					0xaaaa_aaaa_aaaa_aaaa
				} else {
					0x5555_5555_5555_5555
				}
			}
		}
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		self.count();
		match self {
			AnyRng::Ends(r, _) => r.fill_bytes(d),
			AnyRng::Std(r) => r.fill_bytes(d),
			AnyRng::Small(r) => r.fill_bytes(d),
			_ => {
				for c in d.chunks_mut(8) {
					let v = self.next_u64().to_le_bytes();
					let n = c.len();
					c.copy_from_slice(&v[..n]);
				}
			}
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

struct State {
	spec: Spec,
	only: Option<u32>,
	skip: u32,
	rep: Report,
	log: Vec<String>,
}
static mut STATE: *mut State = std::ptr::null_mut();
fn state() -> &'static mut State {
	unsafe { &mut *STATE }
}
fn find(prop: &str, m: String) {
	let _g = NoPreempt::new();
	state().rep.find(prop, m);
}
fn note(k: &str, n: u64) {
	let _g = NoPreempt::new();
	state().rep.note(k, n);
}

/// Energies by the definition, in exact arithmetic.
pub struct Ref {
	pub n: usize,
	pub w: Vec<(usize, usize, f64)>,
}
impl Ref {
	fn new(a: &Ann) -> Ref {
		Ref { n: a.n, w: a.w.iter().map(|x| (x.0, x.1, x.2.f())).collect() }
	}
	fn energy(&self, x: &[bool]) -> f64 {
		self.w.iter().filter(|w| x[w.0] && x[w.1]).map(|w| w.2).sum()
	}
	fn diff(&self, x: &[bool], i: usize) -> f64 {
		let mut d = 0.0;
		for w in &self.w {
			if w.0 == i && w.1 == i || w.0 == i && x[w.1] || w.1 == i && x[w.0] {
				d += w.2
			}
		}
		if x[i] {
			-d
		} else {
			d
		}
	}
}

fn schedule<R: Num>(b: &Beta) -> BetaType<R> {
	match b {
		Beta::Count(n) => BetaType::Count(*n),
		Beta::Range(n, x, y) => BetaType::CountRange(*n, R::lit(*x), R::lit(*y)),
		Beta::Sched(v) => BetaType::Schedule(v.iter().map(|l| R::lit(*l)).collect()),
	}
}

fn bits(v: &[bool]) -> String {
	v.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

trait Pm<R: Num>: SingleModelView<Node = Binary<R>> + Send + Sync + 'static {}
impl<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync + 'static> Pm<R> for P {}

fn gen_of<R: Num, P: Pm<R>>(a: &Ann) -> SimulatedAnnealerGenerator<'static, P> {
	let mut g = SimulatedAnnealerGenerator::<'static, P>::new();
	g.sweeps_per_round = a.sweeps;
	g.beta = schedule(&a.beta);
	g
}

// ---------------------------------------------------------------- cold
fn steps(b: &Beta) -> usize {
	match b {
		Beta::Count(n) | Beta::Range(n, _, _) => *n,
		Beta::Sched(v) => v.len(),
	}
}

/// Smallest number that divides every weight (weights are multiples of it), and whether no flip can be free.
pub fn grid(a: &Ann) -> (f64, bool) {
	let q = if a.real < 2 { 0.25 } else { 1.0 };
	let mut own = BTreeMap::new();
	let mut pair = BTreeMap::new();
	for (i, j, l) in &a.w {
		if i == j {
			*own.entry(*i).or_insert(0.0) += l.f() / q
		} else {
			*pair.entry((*i, *j)).or_insert(0.0) += l.f() / q
		}
	}
	let odd = (0..a.n).all(|i| own.get(&i).map_or(false, |x: &f64| (x.round() as i64) & 1 == 1));
	let even = pair.values().all(|x: &f64| (x.round() as i64) & 1 == 0);
	(q, odd && even)
}

fn cold<R: Num, P: Pm<R>>(model: &'static P) {
	let a = state().spec.ann.clone().unwrap();
	let seed = state().spec.seed;
	let r = Ref::new(&a);
	let (q, nofree) = grid(&a);
	let total: f64 = r.w.iter().map(|w| w.2.abs()).sum();
	let settled = nofree && (steps(&a.beta) * a.sweeps) as f64 > total / q + 1.0;
	if SingleModelView::size(model) != a.n {
		return find("C10", format!("the model says it has {} variables, it has {}", SingleModelView::size(model), a.n));
	}
	let minimum = |x: &[bool], what: &str| {
		if !settled {
			return;
		}
		note("local_minima_checked", 1);
		for i in 0..a.n {
			let d = r.diff(x, i);
			if d < 0.0 {
				find(
					"C10",
					format!("{}: flipping variable {} of the answer {} lowers the energy by {}", what, i, bits(x), -d),
				);
				return;
			}
		}
	};
	let betas: Vec<f64> = match &a.beta {
		Beta::Count(n) => vec![1e6; *n],
		Beta::Range(n, x, y) => {
			(0..*n).map(|k| x.f() + (y.f() - x.f()) * k as f64 / (*n as f64 - 1.0).max(1.0)).collect()
		}
		Beta::Sched(v) => v.iter().map(|l| l.f()).collect(),
	};
	for run in 0..a.runs {
		// a start of our own
		let mut p = Prng(h3(seed, 1, run as u64));
		let x0: Vec<bool> = (0..a.n).map(|_| p.next() & 1 == 1).collect();
		let mut s = BinaryRepr::from_vec(&x0);
		let mut rng = AnyRng::new(a.rng, h3(seed, 2, run as u64));
		simulated_annealing(&mut rng, &mut s, &betas, a.sweeps, model);
		let x1 = s.to_vec();
		if x1.len() != a.n {
			return find("C10", format!("the state has {} bits instead of {}", x1.len(), a.n));
		}
		let (e0, e1) = (r.energy(&x0), r.energy(&x1));
		{
			let _g = NoPreempt::new();
			state().log.push(format!("run {}: {} ({}) -> {} ({})", run, bits(&x0), e0, bits(&x1), e1));
		}
		if e1 > e0 {
			find("C10", format!("a cold run went up from {} ({}) to {} ({})", e0, bits(&x0), e1, bits(&x1)));
		}
		if a.sweeps * betas.len() == 0 && x1 != x0 {
			find("C10", format!("no sweep was asked for, but {} became {}", bits(&x0), bits(&x1)));
		}
		minimum(&x1, "annealing a given state");
		// the sampler
		let g = gen_of::<R, P>(&a);
		let sv = match g.generate(model) {
			Ok(s) => s,
			Err(_) => return,
		};
		let mut rng = AnyRng::new(a.rng, h3(seed, 3, run as u64));
		let v = sv.solve_with_rng(&mut rng).unwrap_or_default();
		{
			if v.is_empty() {
				find("C10", "the sampler gave no answer".into());
			}
			for s in v {
				let x = s.state.to_vec();
				if x.len() != a.n {
					return find("C10", format!("the answer has {} bits instead of {}", x.len(), a.n));
				}
				minimum(&x, "the sampler");
			}
		}
		note("nontrivial", 1);
		let _g = NoPreempt::new();
		state().rep.digests.push((format!("0/{}", run), bits(&x1)));
	}
}

// ---------------------------------------------------------------- warm
fn boltz<R: Num, P: Pm<R>>(model: &'static P) {
	let a = state().spec.ann.clone().unwrap();
	let seed = state().spec.seed;
	let r = Ref::new(&a);
	let g = gen_of::<R, P>(&a);
	let sv = match g.generate(model) {
		Ok(s) => s,
		Err(_) => return,
	};
	let mut rng = AnyRng::new(a.rng, h3(seed, 4, 0));
	// size of one part
	let nb = a.n / a.copies.max(1);
	let small = nb <= 6;
	let mut cells = vec![0u64; if small { 1 << nb } else { 0 }];
	let mut ones = vec![0u64; a.n];
	let mut same = vec![0u64; a.n];
	let mut total = 0u64;
	let mut places = 0u64;
	for _ in 0..a.runs {
		let v = match sv.solve_with_rng(&mut rng) {
			Ok(v) => v,
			Err(_) => return,
		};
		for s in v {
			let x = s.state.to_vec();
			if x.len() != a.n {
				return find("C11", format!("the answer has {} bits instead of {}", x.len(), a.n));
			}
			total += 1;
			places += a.copies as u64;
			if small {
				for b in 0..a.copies {
					cells[(0..nb).fold(0, |k, i| k | (x[i * a.copies + b] as usize) << i)] += 1;
				}
			}
			for i in 0..a.n {
				ones[i] += x[i] as u64;
				same[i] += (x[i] == x[(i + 1) % a.n]) as u64;
			}
		}
	}
	if total == 0 {
		return find("C11", "the sampler gave no answers".into());
	}
	let hot = a.sweeps == 0;
	if small {
		let beta = match &a.beta {
			Beta::Sched(v) => v.last().map_or(0.0, |l| l.f()),
			Beta::Range(_, _, y) => y.f(),
			Beta::Count(_) => 0.0,
		};
		let mut p: Vec<f64> = (0..1usize << nb)
			.map(|k| {
				let x: Vec<bool> = (0..a.n).map(|i| i % a.copies == 0 && k >> (i / a.copies) & 1 == 1).collect();
				if hot {
					1.0
				} else {
					(-beta * r.energy(&x)).exp()
				}
			})
			.collect();
		let z: f64 = p.iter().sum();
		p.iter_mut().for_each(|x| *x /= z);
		// rare states are put together
		let (mut chi, mut df, mut re, mut ro) = (0.0, -1.0, 0.0, 0.0);
		for k in 0..p.len() {
			let e = p[k] * places as f64;
			let o = cells[k] as f64;
			if e < 25.0 {
				re += e;
				ro += o;
			} else {
				chi += (o - e) * (o - e) / e;
				df += 1.0;
			}
		}
		if re > 0.0 {
			// (expecting next to nothing, a few are no proof)
			let e = re.max(25.0);
			if re >= 25.0 {
				chi += (ro - re) * (ro - re) / re;
				df += 1.0;
			} else if ro > e + 9.0 * e.sqrt() {
				find("C11", format!("{} of {} answers lie where {:.3} are expected", ro, places, re));
			}
		}
		if df > 0.0 {
			let l = chi2_log10_sf(chi, df);
			let _g = NoPreempt::new();
			let s = state();
			s.log.push(format!("chi2 {} of {} degrees: 10^{:.2}", chi, df, l));
			s.rep.note("distributions_tested", 1);
			if l < -12.0 {
				let w: Vec<String> = (0..p.len())
					.map(|k| format!("{:0w$b}: {} (expected {:.0})", k, cells[k], p[k] * places as f64, w = nb))
					.collect();
				s.rep.find(
					"C11",
					format!("answers do not follow the Boltzmann distribution (p = 10^{:.1}): {}", l, w.join(", ")),
				);
			}
		}
	}
	if hot {
		note("uniform_starts_tested", 1);
		let sd = (total as f64 / 4.0).sqrt();
		for i in 0..a.n {
			let z = (ones[i] as f64 - total as f64 / 2.0) / sd;
			if z.abs() > 8.0 {
				find("C11", format!("bit {} of the start is set {} times out of {}", i, ones[i], total));
			}
			let z = (same[i] as f64 - total as f64 / 2.0) / sd;
			if a.n > 2 && z.abs() > 8.0 {
				find("C11", format!("bits {} and {} of the start agree {} times out of {}", i, (i + 1) % a.n, same[i], total));
			}
		}
	}
	note("nontrivial", 1);
	let _g = NoPreempt::new();
	state().rep.digests.push(("0/0".into(), format!("{:?} {:?}", cells, ones)));
}

// ---------------------------------------------------------------- isolation
type Sv<R, P> = SimulatedAnnealer<'static, P, R>;

fn one_run<R: Num, P: Pm<R>>(a: &Ann, seed: u64, t: usize, run: usize, sv: &Sv<R, P>, model: &'static P) {
	let mut rng = AnyRng::new(a.rng, h3(seed, t as u64, run as u64));
	let h = h3(seed ^ 77, t as u64, run as u64);
	if a.giveup > 0 && h % 5 < 2 {
		let mut rng = AnyRng::Ends(Box::new(rng), (h >> 8) % a.giveup);
		let r = catch_unwind(AssertUnwindSafe(|| sv.solve_with_rng(&mut rng).is_ok()));
		if r.is_err() {
			return note("given_up", 1);
		}
		// (there were numbers enough)
		return;
	}
	let d = match sv.solve_with_rng(&mut rng) {
		Ok(v) => v
			.into_iter()
			.map(|s| {
				let s = s.with_energy(model);
				format!("{} {:?} x{}", bits(&s.state.to_vec()), s.energy.map(|e| e.exact()), s.occurrences)
			})
			.collect::<Vec<_>>()
			.join(", "),
		Err(e) => format!("error {}", e),
	};
	// the caller's generator must be left in the same state, too
	let d = format!("{}; then {:x}", d, rng.next_u64());
	let _g = NoPreempt::new();
	let s = state();
	s.rep.digests.push((format!("{}/{}", t, run), d));
	s.rep.note("nontrivial", 1);
}

fn iso<R: Num, P: Pm<R>>(models: Vec<&'static P>, build: &dyn Fn(usize) -> P) {
	let a = state().spec.ann.clone().unwrap();
	let seed = state().spec.seed;
	let (only, skip) = (state().only, state().skip as usize);
	let make = |g: &SimulatedAnnealerGenerator<'static, P>, m: usize| -> Sv<R, P> {
		match g.generate(models[m]) {
			Ok(s) => s,
			Err(e) => panic!("{}", e),
		}
	};
	// tasks and runs take the problems in turns
	let turn = |t: usize, run: usize| (t + run) % models.len();
	let gen = gen_of::<R, P>(&a);
	let mut shared: Vec<Option<Sv<R, P>>> = models.iter().map(|_| None).collect();
	if a.share == 1 {
		for t in 0..a.tasks {
			for run in skip..a.runs {
				let m = turn(t, run);
				if only.map_or(true, |o| o as usize == t) && shared[m].is_none() {
					shared[m] = Some(make(&gen, m));
				}
			}
		}
	}
	simos::hot(&gen);
	for s in shared.iter().flatten() {
		simos::hot(s);
	}
	for m in &models {
		simos::hot(*m);
	}
	let build = Share(build);
	let body = |t: usize| {
		let build = &build;
		let own = gen_of::<R, P>(&a);
		if a.share == 3 {
			// one place, for a problem after the other
			let mut place: Option<Box<P>> = None;
			for run in skip..a.runs {
				let p = (build.0)(turn(t, run));
				match &mut place {
					Some(b) => **b = p,
					None => place = Some(Box::new(p)),
				}
				let p = &**place.as_ref().unwrap() as *const P;
				// (the solver is gone before the next problem comes)
				let p: &'static P = unsafe { &*p };
				let s = match if t & 1 == 0 { &gen } else { &own }.generate(p) {
					Ok(s) => s,
					Err(e) => panic!("{}", e),
				};
				one_run::<R, P>(&a, seed, t, run, &s, p);
			}
			return;
		}
		for run in skip..a.runs {
			let m = turn(t, run);
			if let Some(s) = &shared[m] {
				one_run::<R, P>(&a, seed, t, run, s, models[m]);
			} else {
				let s = make(if a.share == 2 { &gen } else { &own }, m);
				one_run::<R, P>(&a, seed, t, run, &s, models[m]);
			}
		}
	};
	let body = Share(&body);
	std::thread::scope(|sc| {
		for t in 0..a.tasks {
			if only.map_or(false, |o| o as usize != t) {
				continue;
			}
			let body = Share(body.0);
			sc.spawn(move || {
				let body = body;
				(body.0)(t)
			});
		}
	});
}

// ---------------------------------------------------------------- set-up
fn with_models<R: Num, P: Pm<R>>(make: impl Fn(usize, &[(usize, usize, Lit)]) -> P) {
	let a = state().spec.ann.clone().unwrap();
	let fix = |m: P| -> &'static P { Box::leak(Box::new(m)) };
	let m = fix(make(a.n, &a.w));
	match state().spec.world.as_str() {
		"cold" => cold::<R, P>(m),
		"boltz" => boltz::<R, P>(m),
		_ => {
			let mut v = vec![m];
			if let Some((n, w)) = &a.other {
				v.push(fix(make(*n, w)));
			}
			iso::<R, P>(v, &|k| if k == 0 { make(a.n, &a.w) } else { a.other.as_ref().map(|(n, w)| make(*n, w)).unwrap() })
		}
	}
}
fn with_real<R: Num>() {
	let lit = |l: &Lit| R::lit(*l);
	match state().spec.ann.as_ref().unwrap().form {
		0 => with_models::<R, _>(|n, w| {
			let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
			for (k, (i, j, l)) in w.iter().enumerate() {
				if k % 3 == 1 {
					m.add_weight(*j, *i, lit(l))
				} else {
					m.add_weight(*i, *j, lit(l))
				}
			}
			m
		}),
		1 => with_models::<R, _>(|_, w| {
			let mut m = SingleModel::new(Binary::<R>::new(), Quadric);
			for (i, j, l) in w {
				m.add_weight([*i.min(j), *i.max(j)], lit(l))
			}
			m
		}),
		_ => with_models::<R, _>(|_, w| {
			let mut m = SingleModel::new(Binary::<R>::new(), HighOrder::new(2));
			for (i, j, l) in w {
				m.add_weight(vec![*i, *j].into_iter().collect::<BTreeSet<usize>>(), lit(l))
			}
			m
		}),
	}
}
fn root() {
	let r = catch_unwind(AssertUnwindSafe(|| match state().spec.ann.as_ref().unwrap().real {
		0 => with_real::<f64>(),
		1 => with_real::<f32>(),
		2 => with_real::<i32>(),
		3 => with_real::<i64>(),
		4 => with_real::<i128>(),
		5 => with_real::<i16>(),
		_ => with_real::<i8>(),
	}));
	if let Err(e) = r {
		let _g = NoPreempt::new();
		let p = state().spec.prop.clone();
		state().rep.find(&p, format!("panic: {}", panic_text(&*e)));
	}
}

pub fn world(spec: &Spec, v: &Variant, shm: *mut Shm) -> Report {
	unsafe {
		STATE = Box::leak(Box::new(State { spec: spec.clone(), only: v.only, skip: v.skip, rep: Report::default(), log: vec![] }));
	}
	let (status, err) = crate::simulate(spec, v, shm, root);
	let mut r = std::mem::take(&mut state().rep);
	if let Some(e) = err {
		r.harness = Some(format!("the simulated root panicked: {}", e));
	}
	if status != simos::DONE && status != simos::HARNESS {
		r.find(&spec.prop, format!("it does not come to an end (status {})", status));
	}
	r.log = std::mem::take(&mut state().log);
	r.digests.sort();
	r
}
