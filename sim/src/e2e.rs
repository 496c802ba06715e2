//! The default solver as a user calls it, on problems small enough to know the optimum.
use crate::mono::*;
use crate::pipe::Share;
use annealers::variable::Real;
use core_ref::ast::Bits;
use core_ref::driver::{panic_text, Report};
use core_ref::model::{rel, Ctx};
use core_ref::spec::*;
use rustqubo::solution::SolutionView;
use rustqubo::Expr;
use simos::{NoPreempt, Shm};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct State {
	spec: Spec,
	cx: Ctx,
	best: f64,
	feasible: bool,
	rep: Report,
	log: Vec<String>,
}
static mut STATE: *mut State = std::ptr::null_mut();
fn state() -> &'static mut State {
	unsafe { &mut *STATE }
}

type Got<M> = (<M as Mono>::R, SolutionView<<M as Mono>::Tq, <M as Mono>::R>, Option<usize>);

fn attempt<M: Mono>(s: &Deflt<M>) -> Result<Got<M>, String> {
	let plain = state().spec.plain;
	let r = catch_unwind(AssertUnwindSafe(|| {
		if plain {
			if let Some(r) = M::plain_default(s) {
				return r.map(|(e, v)| (e, v, None)).map_err(|e| e.to_string());
			}
		}
		s.solve_with_constraints().map(|(e, v, l)| (e, v, Some(l.len()))).map_err(|e| e.to_string())
	}));
	match r {
		Ok(r) => r,
		Err(p) => Err(panic_text(&*p)),
	}
}

fn caller<M: Mono>(s: &Deflt<M>, ci: usize, solves: u32) {
	for i in 0..solves {
		let (attempts, best, feasible, tol) = {
			let s = state();
			let sc = s.spec.exprs[0].bound(&[], s.spec.strength.f()).max(1e-300);
			(s.spec.attempts, s.best, s.feasible, rel(s.spec.mono) * sc)
		};
		let mut seen = vec![];
		let mut ok = false;
		for k in 0..attempts {
			match attempt::<M>(s) {
				Ok((e, v, l)) => {
					let e = e.as_f64();
					let bits: Vec<Option<bool>> =
						state().cx.vars.iter().map(|q| v.get(&<M::Tq as Lab>::make(*q))).collect();
					let u = bits.iter().enumerate().fold(0 as Bits, |u, (p, b)| if *b == Some(true) { u | 1 << p } else { u });
					// what the answer is really worth
					let (val, viol) = {
						let _g = NoPreempt::new();
						let s = state();
						(s.cx.base(u), !s.cx.feasible(u))
					};
					seen.push(format!("{} ({:b}, {:?} violated)", e, u, l));
					ok = bits.iter().all(|b| b.is_some())
						&& (e - best).abs() <= tol
						&& (!feasible || (val - best).abs() <= tol && !viol && l.map_or(true, |l| l == 0));
				}
				Err(m) => {
					let _g = NoPreempt::new();
					state().rep.find("C15", format!("the default solver fails: {}", m));
					return;
				}
			}
			if ok {
				let _g = NoPreempt::new();
				let s = state();
				s.rep.note("optimum_found", 1);
				s.rep.note(if k == 0 { "at_once" } else { "after_retry" }, 1);
				break;
			}
		}
		let _g = NoPreempt::new();
		let s = state();
		s.rep.note("nontrivial", 1);
		s.log.push(format!("caller {} solve {}: {}", ci, i, seen.join("; ")));
		if !ok {
			s.rep.find("C15", format!("the optimum is {}, the default solver answers {}", best, seen.join("; ")));
		}
		s.rep.digests.push((format!("{}/{}", ci, i), seen.join("; ")));
	}
}

fn make<M: Mono>(c: &'static rustqubo_model::C<M>, samples: u32) -> Deflt<M> {
	let mut s = (c.0)();
	s.samples = samples as usize;
	s
}
mod rustqubo_model {
	use crate::mono::*;
	pub struct C<M: Mono>(pub Box<dyn Fn() -> Deflt<M>>);
}

fn root<M: Mono>() {
	let (ast, callers, samples, style) = {
		let s = state();
		(s.spec.exprs[0].clone(), s.spec.callers.clone(), s.spec.samples, simos::mix(s.spec.seed))
	};
	let r = catch_unwind(AssertUnwindSafe(|| {
		let e: Expr<(), M::Tq, M::Tc, M::R> = build::<M, ()>(&ast, &[], style);
		e.compile()
	}));
	let c = match r {
		Ok(c) => Share(&*Box::leak(Box::new(c))),
		Err(e) => {
			state().rep.find("C15", format!("the problem does not compile: {}", panic_text(&*e)));
			return;
		}
	};
	let c: &'static Share<rustqubo_model::C<M>> = Box::leak(Box::new(Share(rustqubo_model::C::<M>(Box::new(move || {
		rustqubo::solve::SimpleSolver::new(c.0)
	})))));
	let shared: &'static Share<Deflt<M>> = Box::leak(Box::new(Share(make::<M>(&c.0, samples))));
	let mut hs = vec![];
	for (ci, cl) in callers.into_iter().enumerate() {
		hs.push(std::thread::spawn(move || {
			if cl.shared {
				caller::<M>(&shared.0, ci, cl.solves)
			} else {
				let own = make::<M>(&c.0, samples);
				caller::<M>(&own, ci, cl.solves)
			}
		}));
	}
	for h in hs {
		if let Err(e) = h.join() {
			std::panic::resume_unwind(e)
		}
	}
}

pub fn world(spec: &Spec, v: &Variant, shm: *mut Shm) -> Report {
	let cx = Ctx::new(spec, 0);
	let n = cx.vars.len();
	assert!(n <= 16);
	let all = 0..(1 as Bits) << n;
	let feas: Vec<Bits> = all.clone().filter(|u| cx.feasible(*u)).collect();
	let best = feas.iter().map(|u| cx.base(*u)).fold(f64::INFINITY, f64::min);
	unsafe {
		STATE = Box::leak(Box::new(State {
			spec: spec.clone(),
			cx,
			best,
			feasible: !feas.is_empty(),
			rep: Report::default(),
			log: vec![],
		}));
	}
	let mut r = Report::default();
	if feas.is_empty() {
		r.note("infeasible", 1);
		return r;
	}
	let f: fn() = match spec.mono {
		0 => root::<M0>,
		1 => root::<M1>,
		2 => root::<M2>,
		3 => root::<M3>,
		4 => root::<M4>,
		6 => root::<M6>,
		_ => root::<M5>,
	};
	let (status, err) = crate::simulate(spec, v, shm, f);
	let mut r = std::mem::take(&mut state().rep);
	if let Some(e) = err {
		r.harness = Some(format!("the simulated root panicked: {}", e));
	}
	if status != simos::DONE && status != simos::HARNESS {
		r.find(&spec.prop, format!("it does not come to an end (status {})", status));
	}
	r.log = std::mem::take(&mut state().log);
	r.log.push(format!("optimum {}", state().best));
	r.digests.sort();
	r
}
