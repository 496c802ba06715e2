//! Deterministic simulation of rustqubo: the real code on a simulated operating system.
mod ann;
mod e2e;
mod mono;
mod pipe;
mod store;

use core_ref::driver::*;
use core_ref::spec::*;
use simos::{Cfg, Shm};

#[global_allocator]
static ALLOC: simos::SimAlloc = simos::SimAlloc;

static mut ROOT_PANIC: Option<String> = None;

/// Runs `f` on the simulated system. Returns how that ended and the text of a panic of the root thread.
pub fn simulate(spec: &Spec, v: &Variant, shm: *mut Shm, f: fn()) -> (u32, Option<String>) {
	std::env::set_var("RAYON_NUM_THREADS", v.threads.to_string());
	if std::env::var_os("DST_STDERR").is_none() {
		std::panic::set_hook(Box::new(|_| {}));
	}
	let cfg = Cfg {
		seed: v.sseed,
		entropy: v.entropy,
		policy: v.policy.clone(),
		script: v.script.clone(),
		garbage: v.garbage,
		spurious: v.spurious,
		rand_wake: v.rand_wake,
		eintr: v.eintr,
		short: v.short,
		budget: spec.budget * if v.mem { 3 } else { 1 },
		mem: v.mem,
	};
	let status = simos::run(
		cfg,
		shm,
		Box::new(move || {
			if let Err(e) = std::panic::catch_unwind(f) {
				let _g = simos::NoPreempt::new();
				unsafe { ROOT_PANIC = Some(panic_text(&*e)) };
			}
		}),
	);
	#[allow(static_mut_refs)]
	(status, unsafe { ROOT_PANIC.clone() })
}

fn world(spec: &Spec, v: &Variant, shm: *mut Shm) -> Report {
	match spec.world.as_str() {
		"pipe" => pipe::world(spec, v, shm),
		"e2e" => e2e::world(spec, v, shm),
		"store" => store::world(spec, v, shm),
		_ => ann::world(spec, v, shm),
	}
}

const PROPS: [&str; 18] = [
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21",
];

fn plan(prop: &str, tier: &str) -> Plan {
	let quick = match prop {
		"C11" => 600,
		"C15" => 3000,
		_ => 60_000,
	};
	if tier == "quick" {
		Plan { runs: quick, secs: 75 }
	} else {
		Plan { runs: u64::MAX, secs: 720 }
	}
}

fn meta(prop: &str) -> Meta {
	let rule = match prop {
		"C01" => "a solve returned an answer, which was compared with the reference value",
		"C02" => "the compiled problem was compared with the reference on every assignment of its variables",
		"C03" => "a round with more than one answer was finished",
		"C04" => "an answer of a problem with labelled constraints was returned",
		"C05" => "at least one round was run and its continuation or end was judged",
		"C06" => "a backend failure was injected into a round that took place",
		"C07" => "at least one sampler ran while its problem was being watched",
		"C08" => "two or more random streams were compared, or the entropy source failed",
		"C12" => "the weights of two successive rounds were recovered and compared",
		"C13" => "a problem with fed placeholders was solved, or an incomplete one refused",
		"C14" => "a solve returned an answer, whose view was read completely",
		"C21" => "a history of operations was carried out next to its reference",
		"C17" => "a solve among concurrent callers was compared with the same solve alone",
		_ => "the run returned an answer that was judged",
	};
	let (real, stub) = match prop {
		"C10" | "C11" | "C16" => (
			"classical_solver (annealing, beta schedules, samplers), annealers (models, states, solutions), rand",
			"operating system (futex, threads, clock, entropy), memory allocator contents; the caller's random generator in C10 and C16 is sometimes a degenerate stream",
		),
		"C21" => (
			"annealers (models, products and neighbours, states, solutions), rand",
			"operating system (futex, threads, clock, entropy), memory allocator contents; random states are sometimes drawn from a degenerate stream",
		),
		"C15" => (
			"rustqubo, annealers, classical_solver, rayon, rand, std: everything a user runs",
			"operating system (futex, threads, clock, entropy), memory allocator contents",
		),
		_ => (
			"rustqubo (expressions, compiler, order reduction, solver loop, solutions), annealers (models, states, solutions), rayon, rand, std",
			"operating system (futex, threads, clock, entropy), memory allocator contents, and the annealing backend, which is a scripted one behind the public SolverGenerator trait",
		),
	};
	Meta {
		level: "exploration",
		rule: format!(
			"Non-trivial: {}. Distinct: counted once per set of outcomes, schedule (hash of all context switches) and problem.",
			rule
		),
		real,
		stub,
		assumptions: vec![
			"Threads switch at basic-block edges of the instrumented crates (C06, C07, C08, C09, C16, C17, C21: in part of the executions at every load and store, too), at allocations and at system calls, and memory is sequentially consistent.".into(),
			"Exploration is a seeded sample of cases, schedules and faults; absence of a violation is not a proof.".into(),
			"Reference values are computed in f64 from literals that are multiples of powers of two; f32 and f64 answers are compared with a small relative tolerance.".into(),
		],
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let usage = || -> ! {
		eprintln!("usage: dst check <property> [quick|thorough] | dst replay [-v] <file> | dst selftest <property> <seed> <from> <n>");
		std::process::exit(2)
	};
	if a.len() < 3 {
		usage()
	}
	let code = match a[1].as_str() {
		"check" => {
			let prop = a[2].as_str();
			if !PROPS.contains(&prop) {
				usage()
			}
			let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
			let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
			let root = std::env::var("DST_ROOT").unwrap_or("/verif".into());
			let mut p = plan(prop, &tier);
			if let Some(n) = std::env::var("DST_RUNS").ok().and_then(|x| x.parse().ok()) {
				p.runs = n
			}
			if let Some(n) = std::env::var("DST_SECS").ok().and_then(|x| x.parse().ok()) {
				p.secs = n
			}
			check(world, prop, &tier, seed, &p, &meta(prop), &root)
		}
		"replay" => {
			let v = a[2] == "-v";
			replay(world, a.last().unwrap(), v)
		}
		"selftest" if a.len() >= 6 => {
			let n = |i: usize| a[i].parse::<u64>().unwrap();
			selftest(world, &a[2], n(3), n(4), n(5))
		}
		"show" if a.len() >= 5 => {
			print!("{}", core_ref::gen::make(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).show());
			0
		}
		_ => usage(),
	};
	std::process::exit(code)
}
