//! One simulated case, completely: system, workload, faults, schedules. Text form = replay file.
use crate::ast::{Ast, Lit};
use simos::{Policy, Switch};

#[derive(Clone, Debug, PartialEq)]
pub struct Caller {
	pub model: usize,
	/// use the solver object shared by all callers of this model
	pub shared: bool,
	pub solves: u32,
	/// run inside an own pool of so many threads (0: no)
	pub pool: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fk {
	GenErr,
	SolveErr,
	Panic,
	GenPanic,
	Stall,
	Nested,
	Empty,
	/// waits until every other caller is done (only in a pool of its own)
	Gate,
}
pub const FKS: [(Fk, &str); 8] = [
	(Fk::GenErr, "generr"),
	(Fk::SolveErr, "solveerr"),
	(Fk::Panic, "panic"),
	(Fk::GenPanic, "genpanic"),
	(Fk::Stall, "stall"),
	(Fk::Nested, "nested"),
	(Fk::Empty, "empty"),
	(Fk::Gate, "gate"),
];

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
	pub caller: u32,
	pub solve: u32,
	pub round: u32,
	pub sample: u32,
	pub kind: Fk,
	pub arg: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
	pub policy: Policy,
	pub sseed: u64,
	pub entropy: u64,
	pub threads: u32,
	pub garbage: u8,
	pub spurious: u32,
	pub rand_wake: bool,
	/// threads may be switched at every load and store
	pub mem: bool,
	pub eintr: u32,
	pub short: u32,
	/// only this caller acts (others are started but do nothing)
	pub only: Option<u32>,
	/// skip this many leading solves of every caller
	pub skip: u32,
	pub script: Vec<Switch>,
}
impl Variant {
	pub fn plain() -> Self {
		Variant {
			policy: Policy::NonPreempt,
			sseed: 1,
			entropy: 1,
			threads: 1,
			garbage: 0,
			spurious: 0,
			rand_wake: false,
			mem: false,
			eintr: 0,
			short: 0,
			only: None,
			skip: 0,
			script: vec![],
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Beta {
	Count(usize),
	Range(usize, Lit, Lit),
	Sched(Vec<Lit>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ann {
	pub n: usize,
	pub w: Vec<(usize, usize, Lit)>,
	/// 0 dense, 1 sparse with pairs ([usize;2]), 2 sparse with sets
	pub form: u8,
	/// 0 f64, 1 f32, 2 i32, 3 i64, 4 i128, 5 i16, 6 i8
	pub real: u8,
	pub beta: Beta,
	pub sweeps: usize,
	pub runs: usize,
	/// 0 StdRng, 1 SmallRng, 2 zeros, 3 ones, 4 counter, 5 alternating
	pub rng: u8,
	/// tasks running at the same time
	pub tasks: usize,
	/// 0: every task makes its own, 1: the tasks share the solver objects, 2: the tasks share a generator
	pub share: u8,
	/// the problem consists of so many equal parts, variables of a part being so far apart
	pub copies: usize,
	/// another problem, solved in turns with the first
	pub other: Option<(usize, Vec<(usize, usize, Lit)>)>,
	/// in some runs the caller's generator gives up (panics) within so many numbers (0: in none)
	pub giveup: u64,
}

/// One operation of a history; what it means is up to the interpreter.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SOp {
	/// 0: before the tasks start
	pub task: u8,
	pub code: u8,
	pub a: u32,
	pub b: u32,
	pub c: u32,
	pub w: Lit,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Store {
	/// 0 binary, 1 spin, 2 two values
	pub node: u8,
	/// 0 dense, 1 sparse with pairs, 2 sparse with sets
	pub form: u8,
	/// 0 f64, 1 f32, 2 i32, 3 i64, 4 i128
	pub real: u8,
	/// usual number of variables
	pub n: usize,
	pub tasks: u8,
	pub ops: Vec<SOp>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
	pub prop: String,
	pub world: String,
	pub seed: u64,
	pub mono: u8,
	pub exprs: Vec<Ast>,
	/// value and stage: 0 written as a number, 1 fed to the expression, 2 fed to the compiled model, 3 never
	pub ph: Vec<(Lit, u8)>,
	pub callers: Vec<Caller>,
	pub iters: u32,
	pub gens: u32,
	pub samples: u32,
	pub strength: Lit,
	/// one letter per round, cyclic: what kind of answers
	pub plan: String,
	pub nans: (u32, u32),
	/// of 256: chance that an answer has its energy filled in
	pub preset: u32,
	pub plain: bool,
	pub faults: Vec<Fault>,
	/// faults go away when the same sample is tried again
	pub transient: bool,
	/// the callers are tasks in one pool of so many threads (0: threads of their own, 50 and more: the global pool)
	pub intask: u32,
	/// every caller compiles a problem of its own (1), or feeds a copy of what was compiled once (2)
	pub each: u8,
	/// integers with more digits than a double has (only while being made)
	pub huge: bool,
	/// other settings (samples, iterations, generations, strength) for solves 1, 2, ... of callers with a solver of their own
	pub alter: Vec<(u32, u32, u32, Lit)>,
	/// caller, solve, successful reads before entropy fails for good
	pub entfail: Option<(u32, u32, u64)>,
	pub attempts: u32,
	pub ann: Option<Ann>,
	pub store: Option<Store>,
	pub budget: u64,
	pub variants: Vec<Variant>,
	pub expect: String,
}

impl Spec {
	pub fn new(prop: &str, world: &str, seed: u64) -> Self {
		Spec {
			prop: prop.into(),
			world: world.into(),
			seed,
			mono: 0,
			exprs: vec![],
			ph: vec![],
			callers: vec![],
			iters: 1,
			gens: 1,
			samples: 1,
			strength: Lit(50, 0),
			plan: "r".into(),
			nans: (1, 1),
			preset: 0,
			plain: false,
			faults: vec![],
			transient: false,
			intask: 0,
			each: 0,
			huge: false,
			alter: vec![],
			entfail: None,
			attempts: 1,
			ann: None,
			store: None,
			budget: 30_000_000,
			variants: vec![Variant::plain()],
			expect: String::new(),
		}
	}
	/// samples, iterations, generations and strength of a solve
	pub fn settings(&self, caller: u32, idx: u32) -> (u32, u32, u32, Lit) {
		let base = (self.samples, self.iters, self.gens, self.strength);
		match self.callers.get(caller as usize) {
			Some(c) if !c.shared && idx > 0 && !self.alter.is_empty() => self.alter[(idx as usize - 1) % self.alter.len()],
			_ => base,
		}
	}
	pub fn max_strength(&self) -> f64 {
		self.alter.iter().map(|a| a.3.f()).fold(self.strength.f(), f64::max)
	}
	pub fn ph_values(&self) -> Vec<f64> {
		self.ph.iter().map(|p| p.0.f()).collect()
	}

	pub fn show(&self) -> String {
		let mut s = String::new();
		let mut p = |k: &str, v: String| {
			s.push_str(k);
			s.push('=');
			s.push_str(&v);
			s.push('\n');
		};
		let d = Spec::new("", "", 0);
		p("prop", self.prop.clone());
		p("world", self.world.clone());
		p("seed", self.seed.to_string());
		p("mono", self.mono.to_string());
		for e in &self.exprs {
			p("expr", e.show());
		}
		for (l, st) in &self.ph {
			p("ph", format!("{}e{} {}", l.0, l.1, st));
		}
		for c in &self.callers {
			p("caller", format!("{} {} {} {}", c.model, c.shared as u8, c.solves, c.pool));
		}
		p("iters", self.iters.to_string());
		p("gens", self.gens.to_string());
		p("samples", self.samples.to_string());
		p("strength", format!("{}e{}", self.strength.0, self.strength.1));
		p("plan", self.plan.clone());
		p("nans", format!("{} {}", self.nans.0, self.nans.1));
		p("preset", self.preset.to_string());
		p("plain", (self.plain as u8).to_string());
		for f in &self.faults {
			let k = FKS.iter().find(|k| k.0 == f.kind).unwrap().1;
			p("fault", format!("{} {} {} {} {} {}", f.caller, f.solve, f.round, f.sample, k, f.arg));
		}
		if self.transient {
			p("transient", "1".into());
		}
		if self.intask != 0 {
			p("intask", self.intask.to_string());
		}
		if self.each != 0 {
			p("each", self.each.to_string());
		}
		for a in &self.alter {
			p("alter", format!("{} {} {} {}e{}", a.0, a.1, a.2, a.3 .0, a.3 .1));
		}
		if let Some((a, b, c)) = self.entfail {
			p("entfail", format!("{} {} {}", a, b, c));
		}
		if self.attempts != d.attempts {
			p("attempts", self.attempts.to_string());
		}
		if let Some(a) = &self.ann {
			let b = match &a.beta {
				Beta::Count(n) => format!("C {}", n),
				Beta::Range(n, x, y) => format!("R {} {}e{} {}e{}", n, x.0, x.1, y.0, y.1),
				Beta::Sched(v) => {
					format!("S {}", v.iter().map(|l| format!("{}e{}", l.0, l.1)).collect::<Vec<_>>().join(" "))
				}
			};
			p(
				"ann",
				format!(
					"{} {} {} {} {} {} {} {} {} {}",
					a.n, a.form, a.real, a.sweeps, a.runs, a.rng, a.tasks, a.share, a.copies, a.giveup
				),
			);
			p("beta", b);
			let ws = |w: &[(usize, usize, Lit)]| {
				w.iter().map(|(i, j, l)| format!("{},{},{}e{}", i, j, l.0, l.1)).collect::<Vec<_>>().join(" ")
			};
			p("weights", ws(&a.w));
			if let Some((n, w)) = &a.other {
				p("other", format!("{} {}", n, ws(w)));
			}
		}
		if let Some(s) = &self.store {
			p("store", format!("{} {} {} {} {}", s.node, s.form, s.real, s.n, s.tasks));
			for o in &s.ops {
				p("op", format!("{} {} {} {} {} {}e{}", o.task, o.code, o.a, o.b, o.c, o.w.0, o.w.1));
			}
		}
		p("budget", self.budget.to_string());
		for v in &self.variants {
			let pol = match &v.policy {
				Policy::NonPreempt => "np".to_string(),
				Policy::RandomWalk(m) => format!("rw:{}", m),
				Policy::Pct(d, l) => format!("pct:{}:{}", d, l),
				Policy::RoundRobin(q) => format!("rr:{}", q),
				Policy::Stall(m, w) => format!("stall:{}:{}", m, w),
				Policy::Script => "script".to_string(),
			};
			p(
				"exec",
				format!(
					"{} {} {} {} {} {} {} {} {} {} {} {}",
					pol,
					v.sseed,
					v.entropy,
					v.threads,
					v.garbage,
					v.spurious,
					v.rand_wake as u8,
					v.eintr,
					v.short,
					v.only.map(|x| x as i64).unwrap_or(-1),
					v.skip,
					v.mem as u8
				),
			);
			if v.policy == Policy::Script {
				p(
					"switches",
					v.script.iter().map(|s| format!("{}:{}:{}", s.kind, s.at, s.to)).collect::<Vec<_>>().join(" "),
				);
			}
		}
		if !self.expect.is_empty() {
			p("expect", self.expect.replace('\n', " "));
		}
		s
	}

	pub fn parse(t: &str) -> Result<Spec, String> {
		let mut s = Spec::new("", "", 0);
		s.variants.clear();
		fn lit(t: &str) -> Result<Lit, String> {
			let mut p = t.splitn(2, 'e');
			let n = p.next().unwrap().parse().map_err(|_| format!("literal {}", t))?;
			let e = p.next().map(|e| e.parse().map_err(|_| format!("literal {}", t))).transpose()?.unwrap_or(0);
			Ok(Lit(n, e))
		}
		let weights = |f: &[&str]| -> Result<Vec<(usize, usize, Lit)>, String> {
			let mut w = vec![];
			for x in f {
				let y: Vec<&str> = x.split(',').collect();
				if y.len() != 3 {
					return Err(format!("weight {}", x));
				}
				w.push((y[0].parse().map_err(|_| "weight")?, y[1].parse().map_err(|_| "weight")?, lit(y[2])?));
			}
			Ok(w)
		};
		for line in t.lines() {
			let line = line.trim();
			if line.is_empty() || line.starts_with('#') {
				continue;
			}
			let (k, v) = line.split_once('=').ok_or(format!("line {}", line))?;
			let f: Vec<&str> = v.split_whitespace().collect();
			let num = |i: usize| -> Result<i64, String> {
				f.get(i).and_then(|x| x.parse::<i64>().ok()).ok_or(format!("number {} in {}", i, line))
			};
			let unum = |i: usize| -> Result<u64, String> {
				f.get(i).and_then(|x| x.parse::<u64>().ok()).ok_or(format!("number {} in {}", i, line))
			};
			match k {
				"prop" => s.prop = v.into(),
				"world" => s.world = v.into(),
				"seed" => s.seed = unum(0)?,
				"mono" => s.mono = num(0)? as u8,
				"expr" => s.exprs.push(Ast::parse(v)?),
				"ph" => s.ph.push((lit(f[0])?, num(1)? as u8)),
				"caller" => s.callers.push(Caller {
					model: num(0)? as usize,
					shared: num(1)? != 0,
					solves: num(2)? as u32,
					pool: num(3)? as u32,
				}),
				"iters" => s.iters = num(0)? as u32,
				"gens" => s.gens = num(0)? as u32,
				"samples" => s.samples = num(0)? as u32,
				"strength" => s.strength = lit(v)?,
				"plan" => s.plan = v.into(),
				"nans" => s.nans = (num(0)? as u32, num(1)? as u32),
				"preset" => s.preset = num(0)? as u32,
				"plain" => s.plain = num(0)? != 0,
				"fault" => {
					let k = FKS.iter().find(|k| Some(&k.1) == f.get(4)).ok_or("fault kind")?.0;
					s.faults.push(Fault {
						caller: num(0)? as u32,
						solve: num(1)? as u32,
						round: num(2)? as u32,
						sample: num(3)? as u32,
						kind: k,
						arg: unum(5)?,
					})
				}
				"transient" => s.transient = num(0)? != 0,
				"intask" => s.intask = num(0)? as u32,
				"each" => s.each = num(0)? as u8,
				"alter" => s.alter.push((num(0)? as u32, num(1)? as u32, num(2)? as u32, lit(f.get(3).ok_or("alter")?)?)),
				"entfail" => s.entfail = Some((num(0)? as u32, num(1)? as u32, unum(2)?)),
				"attempts" => s.attempts = num(0)? as u32,
				"ann" => {
					s.ann = Some(Ann {
						n: num(0)? as usize,
						form: num(1)? as u8,
						real: num(2)? as u8,
						sweeps: num(3)? as usize,
						runs: num(4)? as usize,
						rng: num(5)? as u8,
						tasks: num(6)? as usize,
						share: num(7)? as u8,
						copies: num(8).unwrap_or(1) as usize,
						giveup: unum(9).unwrap_or(0),
						other: None,
						w: vec![],
						beta: Beta::Count(1),
					})
				}
				"store" => {
					s.store = Some(Store {
						node: num(0)? as u8,
						form: num(1)? as u8,
						real: num(2)? as u8,
						n: num(3)? as usize,
						tasks: num(4)? as u8,
						ops: vec![],
					})
				}
				"op" => s.store.as_mut().ok_or("op before store")?.ops.push(SOp {
					task: num(0)? as u8,
					code: num(1)? as u8,
					a: num(2)? as u32,
					b: num(3)? as u32,
					c: num(4)? as u32,
					w: lit(f.get(5).ok_or("op")?)?,
				}),
				"beta" => {
					let b = match f[0] {
						"C" => Beta::Count(num(1)? as usize),
						"R" => Beta::Range(num(1)? as usize, lit(f[2])?, lit(f[3])?),
						_ => Beta::Sched(f[1..].iter().map(|x| lit(x)).collect::<Result<_, _>>()?),
					};
					s.ann.as_mut().ok_or("beta before ann")?.beta = b;
				}
				"weights" => {
					s.ann.as_mut().ok_or("weights before ann")?.w = weights(&f)?;
				}
				"other" => {
					s.ann.as_mut().ok_or("other before ann")?.other = Some((num(0)? as usize, weights(&f[1..])?));
				}
				"budget" => s.budget = unum(0)?,
				"exec" => {
					let p: Vec<&str> = f[0].split(':').collect();
					let n = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
					let policy = match p[0] {
						"np" => Policy::NonPreempt,
						"rw" => Policy::RandomWalk(n(1)),
						"pct" => Policy::Pct(n(1) as u32, n(2)),
						"rr" => Policy::RoundRobin(n(1)),
						"stall" => Policy::Stall(n(1), n(2)),
						"script" => Policy::Script,
						_ => return Err(format!("policy {}", f[0])),
					};
					s.variants.push(Variant {
						policy,
						sseed: unum(1)?,
						entropy: unum(2)?,
						threads: num(3)? as u32,
						garbage: num(4)? as u8,
						spurious: num(5)? as u32,
						rand_wake: num(6)? != 0,
						eintr: num(7)? as u32,
						short: num(8)? as u32,
						only: if num(9)? < 0 { None } else { Some(num(9)? as u32) },
						skip: num(10)? as u32,
						mem: num(11).unwrap_or(0) != 0,
						script: vec![],
					})
				}
				"switches" => {
					let mut w = vec![];
					for x in f {
						let y: Vec<u64> = x.split(':').filter_map(|z| z.parse().ok()).collect();
						if y.len() != 3 {
							return Err("switch".into());
						}
						w.push(Switch { kind: y[0] as u16, at: y[1], to: y[2] as u16, site: 0 });
					}
					s.variants.last_mut().ok_or("switches before exec")?.script = w;
				}
				"expect" => s.expect = v.into(),
				_ => return Err(format!("unknown key {}", k)),
			}
		}
		if s.variants.is_empty() {
			return Err("no exec line".into());
		}
		Ok(s)
	}
}
