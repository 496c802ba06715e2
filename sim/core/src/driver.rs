//! Runs cases: one forked process per simulated execution, many workers; judging, minimising, evidence.
use crate::ast::*;
use crate::gen;
use crate::spec::*;
use simos::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Debug)]
pub struct Report {
	pub findings: Vec<(String, String)>,
	pub notes: BTreeMap<String, u64>,
	pub digests: Vec<(String, String)>,
	pub draws: Vec<u64>,
	pub log: Vec<String>,
	/// a failure of the simulator itself
	pub harness: Option<String>,
}
fn clean(s: &str) -> String {
	s.replace(['\n', '\t', '\r'], " ")
}
impl Report {
	pub fn note(&mut self, k: &str, n: u64) {
		*self.notes.entry(k.to_string()).or_insert(0) += n;
	}
	pub fn find(&mut self, p: &str, m: String) {
		if self.findings.len() < 100 {
			self.findings.push((p.into(), m))
		}
	}
	fn show(&self) -> String {
		let mut s = String::new();
		if let Some(h) = &self.harness {
			s += &format!("H\t{}\n", clean(h));
		}
		for (p, m) in &self.findings {
			s += &format!("F\t{}\t{}\n", p, clean(m));
		}
		for (k, n) in &self.notes {
			s += &format!("N\t{}\t{}\n", k, n);
		}
		for (k, d) in &self.digests {
			s += &format!("D\t{}\t{}\n", k, clean(d));
		}
		for l in self.log.iter().take(400) {
			s += &format!("L\t{}\n", clean(l));
		}
		if !self.draws.is_empty() {
			s += "R";
			for d in &self.draws {
				s += &format!("\t{:x}", d);
			}
			s += "\n";
		}
		s
	}
	fn parse(t: &str) -> Report {
		let mut r = Report::default();
		for l in t.lines() {
			let f: Vec<&str> = l.split('\t').collect();
			match f[0] {
				"H" => r.harness = Some(f[1].into()),
				"F" => r.findings.push((f[1].into(), f[2].into())),
				"N" => r.note(f[1], f[2].parse().unwrap_or(0)),
				"D" => r.digests.push((f[1].into(), f[2].into())),
				"L" => r.log.push(f[1].into()),
				"R" => r.draws = f[1..].iter().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
				_ => {}
			}
		}
		r
	}
}

pub type World = fn(&Spec, &Variant, *mut Shm) -> Report;

#[derive(Clone, Debug)]
pub enum End {
	Normal,
	Crash(i32),
	Harness(String),
}
#[derive(Clone, Debug)]
pub struct Exec {
	pub end: End,
	pub rep: Report,
	pub status: u32,
	pub points: u64,
	pub time: u64,
	pub sched: u64,
	pub switches: u64,
	pub stat: [u64; NSTAT],
	pub sw: Option<Vec<Switch>>,
	pub threads: u32,
}

pub struct Runner {
	pub world: World,
	pub shm: *mut Shm,
	pub limit: u32,
}

unsafe fn map(n: usize) -> *mut libc::c_void {
	let p = libc::mmap(
		std::ptr::null_mut(),
		n,
		libc::PROT_READ | libc::PROT_WRITE,
		libc::MAP_SHARED | libc::MAP_ANONYMOUS,
		-1,
		0,
	);
	assert!(p != libc::MAP_FAILED);
	p
}

impl Runner {
	pub fn new(world: World) -> Runner {
		Runner { world, shm: unsafe { map(std::mem::size_of::<Shm>()) as *mut Shm }, limit: 100 }
	}
	pub fn exec(&self, spec: &Spec, vi: usize) -> Exec {
		let mut alarms = 0;
		for _ in 0..3 {
			match self.once(spec, vi) {
				Ok(e) => return e,
				Err((sig, mut e)) => {
					if sig == libc::SIGALRM {
						alarms += 1;
						if alarms == 2 {
							// it loops where the simulator cannot see it
							e.end = End::Crash(sig);
							return e;
						}
					}
				}
			}
			std::thread::sleep(Duration::from_millis(500));
		}
		panic!("the simulated process was killed or ran out of real time three times\n{}", spec.show())
	}
	fn once(&self, spec: &Spec, vi: usize) -> Result<Exec, (i32, Exec)> {
		unsafe {
			let s = &mut *self.shm;
			s.status.store(RUNNING, SeqCst);
			s.reported.store(0, SeqCst);
			s.report_len.store(0, SeqCst);
			s.points = 0;
			s.time = 0;
			s.nsw = 0;
			s.switches_total = 0;
			s.sched_hash = 0;
			s.threads = 0;
			s.maxrunnable = 0;
			s.stat = [0; NSTAT];
			let v = &spec.variants[vi];
			let pid = libc::fork();
			assert!(pid >= 0, "fork failed");
			if pid == 0 {
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				libc::prctl(libc::PR_SET_DUMPABLE, 0);
				let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
				libc::setrlimit(libc::RLIMIT_CORE, &z);
				let z = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
				libc::setrlimit(libc::RLIMIT_AS, &z);
				libc::alarm(self.limit);
				if std::env::var_os("DST_STDERR").is_none() {
					let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
					if n >= 0 {
						libc::dup2(n, 2);
					}
				}
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.world)(spec, v, self.shm)));
				let r = r.unwrap_or_else(|e| {
					let mut r = Report::default();
					r.harness = Some(panic_text(&*e));
					r
				});
				let t = r.show();
				let n = t.len().min(REPORT);
				s.report[..n].copy_from_slice(&t.as_bytes()[..n]);
				s.report_len.store(n as u64, SeqCst);
				s.reported.store(1, SeqCst);
				libc::_exit(0);
			}
			let mut st = 0;
			while libc::waitpid(pid, &mut st, 0) != pid {}
			let mut e = Exec {
				end: End::Normal,
				rep: Report::default(),
				status: s.status.load(SeqCst),
				points: s.points,
				time: s.time,
				sched: s.sched_hash,
				switches: s.switches_total,
				stat: s.stat,
				sw: if (s.nsw as usize) < MAXSW { Some(s.sw[..s.nsw as usize].to_vec()) } else { None },
				threads: s.threads,
			};
			if s.reported.load(SeqCst) == 1 {
				let n = s.report_len.load(SeqCst) as usize;
				e.rep = Report::parse(&String::from_utf8_lossy(&s.report[..n]));
				if let Some(h) = e.rep.harness.take() {
					e.end = End::Harness(h);
				} else if e.status == HARNESS {
					e.end = End::Harness("simulator limit".into());
				}
			} else if libc::WIFSIGNALED(st) {
				let sig = libc::WTERMSIG(st);
				if sig == libc::SIGKILL || sig == libc::SIGALRM {
					return Err((sig, e));
				}
				e.end = End::Crash(sig);
			} else {
				// std's own exit paths (stack overflow handling aborts; anything else is ours)
				e.end = End::Crash(1000 + libc::WEXITSTATUS(st));
			}
			Ok(e)
		}
	}

	/// Runs all executions of a case and says whether its property is broken.
	pub fn group(&self, spec: &Spec) -> (Vec<Exec>, Result<Option<String>, String>) {
		let ex: Vec<Exec> = (0..spec.variants.len()).map(|v| self.exec(spec, v)).collect();
		let j = judge(spec, &ex);
		(ex, j)
	}
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = e.downcast_ref::<String>() {
		s.clone()
	} else {
		"panic".into()
	}
}

fn short(s: &str) -> String {
	let mut n = s.len().min(600);
	while !s.is_char_boundary(n) {
		n -= 1
	}
	s[..n].to_string()
}

pub fn judge(spec: &Spec, ex: &[Exec]) -> Result<Option<String>, String> {
	let prop = spec.prop.as_str();
	for e in ex {
		if let End::Harness(h) = &e.end {
			return Err(h.clone());
		}
	}
	for (i, e) in ex.iter().enumerate() {
		if let Some((_, m)) = e.rep.findings.iter().find(|f| f.0 == prop) {
			return Ok(Some(format!("execution {}: {}", i, short(m))));
		}
		if let End::Crash(sig) = e.end {
			if !matches!(prop, "C01" | "C03" | "C04" | "C08" | "C09" | "C12") {
				return Ok(Some(format!("execution {}: the process crashed with signal {}", i, sig)));
			}
		}
	}
	let crashed = |e: &Exec| matches!(e.end, End::Crash(_));
	let get = |e: &Exec, k: &str| -> Option<String> {
		if crashed(e) {
			Some("crash".into())
		} else {
			e.rep.digests.iter().find(|d| d.0 == k).map(|d| d.1.clone())
		}
	};
	let keys = |e: &Exec| -> Vec<String> { e.rep.digests.iter().map(|d| d.0.clone()).collect() };
	match prop {
		"C09" | "C16" => {
			let mut first: BTreeMap<String, (usize, String)> = BTreeMap::new();
			let mut any: Vec<String> = ex.iter().flat_map(|e| keys(e)).collect();
			any.sort();
			any.dedup();
			for (i, e) in ex.iter().enumerate() {
				for k in &any {
					if prop == "C16" && spec.variants[i].only.is_some() && get(e, k).is_none() {
						continue;
					}
					let d = get(e, k).unwrap_or("nothing".into());
					match first.get(k) {
						None => {
							first.insert(k.clone(), (i, d));
						}
						Some((j, x)) if *x != d => {
							return Ok(Some(format!("{}: execution {} gave [{}], execution {} [{}]", k, j, short(x), i, short(&d))));
						}
						_ => {}
					}
				}
			}
		}
		"C17" => {
			// what is wrong together and right alone
			if (0..spec.callers.len()).all(|c| spec.variants.iter().skip(1).any(|v| v.only == Some(c as u32))) {
				for f in &ex[0].rep.findings {
					if matches!(f.0.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C13" | "C14")
						&& !ex.iter().skip(1).any(|e| crashed(e) || e.rep.findings.iter().any(|g| g.0 == f.0))
					{
						return Ok(Some(format!("only with several callers ({}): {}", f.0, short(&f.1))));
					}
				}
			}
			for (i, v) in spec.variants.iter().enumerate().skip(1) {
				let c = match v.only {
					Some(c) => c,
					None => continue,
				};
				if spec.faults.iter().any(|f| {
					f.caller == c && matches!(f.kind, Fk::GenErr | Fk::SolveErr | Fk::Panic | Fk::GenPanic)
				}) {
					continue;
				}
				for k in keys(&ex[i]) {
					if !k.starts_with(&format!("{}/", c)) {
						continue;
					}
					if spec.each != 0 && spec.exprs[spec.callers[c as usize].model].degree() > 2 {
						// auxiliary variables may be numbered in any order
						continue;
					}
					let (a, b) = (get(&ex[0], &k).unwrap_or("nothing".into()), get(&ex[i], &k).unwrap_or_default());
					if a != b {
						return Ok(Some(format!("caller/solve {}: together [{}], alone [{}]", k, short(&a), short(&b))));
					}
				}
			}
		}
		"C06" => {
			for (i, v) in spec.variants.iter().enumerate().skip(1) {
				for k in keys(&ex[i]) {
					let n: u32 = k.rsplit('/').next().and_then(|x| x.parse().ok()).unwrap_or(0);
					if n < v.skip {
						continue;
					}
					let (a, b) = (get(&ex[0], &k).unwrap_or("nothing".into()), get(&ex[i], &k).unwrap_or_default());
					if a != b {
						return Ok(Some(format!(
							"caller/solve {}: after a failed solve [{}], without it [{}]",
							k,
							short(&a),
							short(&b)
						)));
					}
				}
			}
		}
		"C08" => {
			for i in 0..ex.len() {
				for j in 0..i {
					if spec.variants[i].entropy == spec.variants[j].entropy {
						continue;
					}
					let a: HashSet<u64> = ex[j].rep.draws.iter().cloned().collect();
					if let Some(d) = ex[i].rep.draws.iter().find(|d| a.contains(d)) {
						return Ok(Some(format!("the number {:x} was drawn with different entropy", d)));
					}
				}
			}
		}
		_ => {}
	}
	Ok(None)
}

// ---------------------------------------------------------------- minimising
fn candidates(s: &Spec) -> Vec<Spec> {
	let mut v: Vec<Spec> = vec![];
	let mut add = |f: &dyn Fn(&mut Spec) -> bool| {
		let mut c = s.clone();
		if f(&mut c) && c != *s {
			v.push(c)
		}
	};
	let single = !matches!(s.prop.as_str(), "C09" | "C16" | "C17");
	if s.variants.len() > 1 && single {
		for i in 0..s.variants.len() {
			add(&|c| {
				c.variants = vec![c.variants[i].clone()];
				c.variants[0].skip == 0
			});
		}
	}
	if s.variants.len() > 2 {
		for i in 0..s.variants.len() {
			if s.prop == "C17" && i == 0 {
				continue;
			}
			add(&|c| {
				c.variants.remove(i);
				true
			});
		}
	}
	if s.callers.len() > 1 {
		for i in 0..s.callers.len() {
			add(&|c| {
				c.callers.remove(i);
				c.variants.retain(|v| v.only != Some(i as u32));
				c.faults.retain(|f| f.caller != i as u32);
				for f in c.faults.iter_mut() {
					if f.caller > i as u32 {
						f.caller -= 1
					}
				}
				for v in c.variants.iter_mut() {
					if let Some(o) = &mut v.only {
						if *o > i as u32 {
							*o -= 1
						}
					}
				}
				!c.variants.is_empty() && (c.prop != "C17" || c.callers.len() > 1)
			});
		}
	}
	for i in 0..s.faults.len() {
		add(&|c| {
			c.faults.remove(i);
			true
		});
	}
	for i in 0..s.callers.len() {
		add(&|c| {
			c.callers[i].pool = 0;
			true
		});
		add(&|c| {
			c.callers[i].solves = 1;
			c.faults.retain(|f| f.caller != i as u32 || f.solve == 0);
			c.variants.iter().all(|v| v.skip == 0) && c.entfail.map_or(true, |e| e.1 == 0)
		});
		add(&|c| {
			c.callers[i].shared = false;
			true
		});
	}
	if s.exprs.len() > 1 && s.callers.iter().all(|c| c.model == 0) {
		add(&|c| {
			c.exprs.truncate(1);
			true
		});
	}
	if s.world == "pipe" {
		for n in [1, s.samples / 2, s.samples.saturating_sub(1)] {
			add(&|c| {
				c.samples = n.max(1);
				if c.samples == 1 {
					c.faults.retain(|f| f.kind != Fk::Empty);
				}
				c.faults.iter().all(|f| f.sample < c.samples)
			});
		}
		for n in [1, s.iters.saturating_sub(1).max(1)] {
			add(&|c| {
				c.iters = n;
				true
			});
		}
		for n in [1, s.gens.saturating_sub(1).max(1)] {
			add(&|c| {
				c.gens = n;
				true
			});
		}
		add(&|c| {
			c.nans = (1, 1);
			true
		});
		add(&|c| {
			c.preset = 0;
			true
		});
		if s.plan.len() > 1 {
			for i in 0..s.plan.len() {
				add(&|c| {
					c.plan.remove(i);
					true
				});
			}
		}
		add(&|c| {
			c.plan = c.plan.replace('m', "r");
			true
		});
	}
	if s.world != "cold" && s.world != "boltz" && s.world != "iso" && s.world != "store" {
		for i in 0..s.exprs.len() {
			let mut sh = s.exprs[i].shrinks();
			sh.sort_by_key(|a| {
				let mut n = 0;
				a.walk(&mut |_| n += 1);
				n
			});
			for e in sh.into_iter().take(80) {
				add(&|c| {
					c.exprs[i] = e.clone();
					let ph = c.ph_values();
					(c.prop != "C13" || !e.phs().is_empty()) && e.bound(&ph, c.strength.f()) < 2e5
				});
			}
		}
		for i in 0..s.ph.len() {
			add(&|c| {
				c.ph[i].0 = Lit(1, 0);
				true
			});
			add(&|c| {
				c.ph[i].1 = 0;
				c.prop != "C13"
			});
		}
	}
	if let Some(st) = &s.store {
		for t in (1..=st.tasks).rev() {
			add(&|c| {
				let st = c.store.as_mut().unwrap();
				st.ops.retain(|o| o.task != t);
				if t == st.tasks && st.tasks > 1 {
					st.tasks -= 1
				}
				true
			});
		}
		let mut k = st.ops.len() / 2;
		while k > 0 {
			for i in (0..st.ops.len()).step_by(k) {
				add(&|c| {
					let st = c.store.as_mut().unwrap();
					st.ops.drain(i..(i + k).min(st.ops.len()));
					true
				});
			}
			k /= 2;
		}
	}
	if let Some(a) = &s.ann {
		if s.world != "boltz" {
			add(&|c| {
				c.ann.as_mut().unwrap().other = None;
				true
			});
			for i in 0..a.w.len().min(60) {
				add(&|c| {
					let a = c.ann.as_mut().unwrap();
					a.w.remove(i);
					a.form == 0
				});
			}
			if a.n > 0 {
				add(&|c| {
					let a = c.ann.as_mut().unwrap();
					a.n -= 1;
					let n = a.n;
					a.w.retain(|w| w.0 < n && w.1 < n);
					a.form == 0
				});
			}
			for n in [1, a.sweeps / 2] {
				add(&|c| {
					c.ann.as_mut().unwrap().sweeps = n;
					true
				});
			}
			add(&|c| {
				c.ann.as_mut().unwrap().runs = 1;
				true
			});
			if a.tasks > 1 {
				add(&|c| {
					let a = c.ann.as_mut().unwrap();
					a.tasks -= 1;
					let t = a.tasks;
					c.variants.retain(|v| v.only.map_or(true, |o| (o as usize) < t));
					c.variants.len() > 1
				});
			}
		}
	}
	for i in 0..s.variants.len() {
		let d = Variant::plain();
		let mut av = |f: &dyn Fn(&mut Variant)| {
			let mut c = s.clone();
			f(&mut c.variants[i]);
			if c != *s {
				v.push(c)
			}
		};
		if s.variants[i].policy != Policy::Script {
			av(&|v| v.policy = d.policy.clone());
		}
		av(&|v| v.threads = 1);
		av(&|v| v.threads = 2);
		av(&|v| v.garbage = 0);
		av(&|v| v.spurious = 0);
		av(&|v| v.rand_wake = false);
		if s.variants[i].policy != Policy::Script {
			av(&|v| v.mem = false);
		}
		av(&|v| v.eintr = 0);
		av(&|v| v.short = 0);
	}
	v
}

pub fn minimise(r: &Runner, spec: &Spec, msg: String, secs: u64) -> (Spec, String) {
	let end = Instant::now() + Duration::from_secs(secs);
	let mut cur = spec.clone();
	let mut msg = msg;
	let holds = |s: &Spec| -> Option<String> {
		match r.group(s).1 {
			Ok(m) => m,
			Err(_) => None,
		}
	};
	'outer: loop {
		for c in candidates(&cur) {
			if Instant::now() > end {
				break 'outer;
			}
			if let Some(m) = holds(&c) {
				cur = c;
				msg = m;
				continue 'outer;
			}
		}
		break;
	}
	// explicit schedules
	for i in 0..cur.variants.len() {
		if matches!(cur.variants[i].policy, Policy::NonPreempt | Policy::Script) || Instant::now() > end {
			continue;
		}
		let e = r.exec(&cur, i);
		let sw = match e.sw {
			Some(sw) if sw.len() < 20_000 => sw,
			_ => continue,
		};
		let mut c = cur.clone();
		c.variants[i].policy = Policy::Script;
		c.variants[i].script = sw;
		match holds(&c) {
			Some(m) => {
				cur = c;
				msg = m;
			}
			None => continue,
		}
		let mut n = 2;
		while Instant::now() < end {
			let len = cur.variants[i].script.len();
			if len == 0 {
				break;
			}
			let chunk = (len + n - 1) / n;
			let mut hit = false;
			let mut a = 0;
			while a < len && Instant::now() < end {
				let mut c = cur.clone();
				let b = (a + chunk).min(c.variants[i].script.len());
				if a >= b {
					break;
				}
				c.variants[i].script.drain(a..b);
				if let Some(m) = holds(&c) {
					cur = c;
					msg = m;
					hit = true;
				} else {
					a = b;
				}
			}
			if !hit {
				if chunk == 1 {
					break;
				}
				n = (n * 2).min(len);
			} else {
				n = n.max(2);
			}
		}
	}
	cur.expect = msg.clone();
	(cur, msg)
}

// ---------------------------------------------------------------- a check
#[derive(Default)]
struct Sum {
	cases: u64,
	execs: u64,
	points: u64,
	time: u64,
	switches: u64,
	threads: u64,
	status: [u64; 5],
	crashes: u64,
	stat: [u64; NSTAT],
	notes: BTreeMap<String, u64>,
	sched: HashSet<u64>,
	outs: HashSet<u64>,
	other: BTreeMap<String, u64>,
}

pub struct Plan {
	pub runs: u64,
	pub secs: u64,
}

fn cores() -> Vec<usize> {
	unsafe {
		let mut s: libc::cpu_set_t = std::mem::zeroed();
		if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s) != 0 {
			return vec![];
		}
		(0..256).filter(|i| libc::CPU_ISSET(*i, &s)).collect()
	}
}

fn hash(s: &str) -> u64 {
	s.bytes().fold(0x1234, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(23))
}

fn nontrivial(prop: &str, e: &Exec) -> bool {
	let n = |k: &str| e.rep.notes.get(k).cloned().unwrap_or(0);
	match prop {
		"C01" => n("solves_ok") > 0,
		"C02" => n("landscapes") > 0,
		"C03" => n("rounds") > 0 && n("answers") > 1,
		"C04" => n("labelled_reports") > 0,
		"C05" => n("rounds") > 0,
		"C06" => n("failed_rounds") > 0,
		"C07" => n("runs") > 0,
		"C08" => n("runs") > 1 || n("loud_entropy_failure") > 0,
		"C12" => n("weights_adapted") + n("weights_kept") > 0,
		"C13" => n("fed") > 0 || n("refused_incomplete") > 0,
		"C14" => n("solves_ok") > 0,
		"C17" => n("solves_ok") > 0,
		_ => n("nontrivial") > 0 || n("solves_ok") > 0,
	}
}

fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub struct Meta {
	pub level: &'static str,
	pub rule: String,
	pub real: &'static str,
	pub stub: &'static str,
	pub assumptions: Vec<String>,
}

#[repr(C)]
struct Ctl {
	next: AtomicU64,
	stop: AtomicU64,
}

/// Returns the exit code.
pub fn check(world: World, prop: &str, tier: &str, seed: u64, plan: &Plan, meta: &Meta, root: &str) -> i32 {
	let t0 = Instant::now();
	let cov = unsafe { map(COVSIZE) as *mut u8 };
	set_coverage(cov);
	let ctl = unsafe { &*(map(4096) as *const Ctl) };
	let cores = cores();
	let nw = std::env::var("DST_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(cores.len().clamp(1, 32));
	let mut pipes = vec![];
	for w in 0..nw {
		let mut fd = [0i32; 2];
		unsafe {
			assert!(libc::pipe(fd.as_mut_ptr()) == 0);
			let pid = libc::fork();
			assert!(pid >= 0);
			if pid == 0 {
				libc::close(fd[0]);
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				if cores.len() >= nw {
					let mut s: libc::cpu_set_t = std::mem::zeroed();
					libc::CPU_SET(cores[w], &mut s);
					libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
				}
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
					worker(world, prop, seed, plan, t0, ctl)
				}));
				let out = match r {
					Ok(t) => t,
					Err(e) => format!("X\t{}\n", clean(&panic_text(&*e))),
				};
				let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[1]);
				let _ = f.write_all(out.as_bytes());
				let _ = f.flush();
				libc::_exit(0);
			}
			libc::close(fd[1]);
			pipes.push((fd[0], pid));
		}
	}
	let mut sum = Sum::default();
	let mut bad: Vec<(u64, String)> = vec![];
	let mut samples: Vec<(u64, String)> = vec![];
	let mut errors: Vec<String> = vec![];
	let mut distinct = 0u64;
	for (fd, pid) in pipes {
		let mut t = String::new();
		let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
		std::io::Read::read_to_string(&mut f, &mut t).ok();
		let mut st = 0;
		unsafe { libc::waitpid(pid, &mut st, 0) };
		let mut complete = false;
		for l in t.lines() {
			let f: Vec<&str> = l.split('\t').collect();
			let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
			match f[0] {
				"C" => {
					sum.cases += n(1);
					sum.execs += n(2);
					sum.points += n(3);
					sum.time += n(4);
					sum.switches += n(5);
					sum.threads += n(6);
					sum.crashes += n(7);
				}
				"T" => (0..5).for_each(|i| sum.status[i] += n(1 + i)),
				"S" => (0..NSTAT).for_each(|i| sum.stat[i] += n(1 + i)),
				"N" => *sum.notes.entry(f[1].into()).or_insert(0) += n(2),
				"O" => *sum.other.entry(f[1].into()).or_insert(0) += n(2),
				"H" => sum.sched.extend(f[1..].iter().filter_map(|x| u64::from_str_radix(x, 16).ok())),
				"G" => sum.outs.extend(f[1..].iter().filter_map(|x| u64::from_str_radix(x, 16).ok())),
				"V" => bad.push((n(1), f[2].into())),
				"P" => samples.push((n(1), f[2].replace("\\n", "\n"))),
				"X" => errors.push(f[1..].join(" ")),
				"END" => complete = true,
				_ => {}
			}
		}
		if !complete {
			errors.push(format!("a worker ended early (status {})", st));
		}
	}
	distinct += sum.outs.len() as u64;
	let edges = unsafe { (0..COVSIZE).filter(|i| *cov.add(*i) != 0).count() };
	let explored = t0.elapsed();
	bad.sort();
	let mut code = 0;
	let mut viol = 0;
	let mut lines = vec![];
	if let Some((i, msg)) = bad.first() {
		let r = Runner::new(world);
		let spec = gen::make(prop, seed, *i);
		let secs = if tier == "quick" { 60 } else { 180 };
		let (min, m) = minimise(&r, &spec, msg.clone(), secs);
		let dir = format!("{}/replays", root);
		std::fs::create_dir_all(&dir).ok();
		let path = format!("{}/{}-{}-{}.replay", dir, prop, seed, i);
		let mut text = format!("# {}: case {} of seed {}, minimised\n# {}\n", prop, i, seed, clean(&m));
		text += &min.show();
		let (ex, _) = r.group(&min);
		for (k, e) in ex.iter().enumerate() {
			text += &format!("# ---- execution {}: {:?}, {} steps\n", k, e.end, e.points);
			for l in e.rep.log.iter().take(200) {
				text += &format!("# {}\n", l);
			}
		}
		std::fs::write(&path, &text).expect("cannot write the replay file");
		// replaying it in a fresh process must reproduce it
		let me = std::env::current_exe().unwrap();
		let o = std::process::Command::new(me).arg("replay").arg(&path).output();
		let ok = match &o {
			Ok(o) => o.status.code() == Some(1),
			_ => false,
		};
		if !ok {
			// minimised beyond what is stable? fall back to the case as generated
			let mut s = spec.clone();
			s.expect = msg.clone();
			std::fs::write(&path, format!("# {}\n{}", clean(msg), s.show())).ok();
		}
		println!("{}: case {} of seed {}: {}", prop, i, seed, m);
		lines.push(format!("VIOLATION property={} replay={}", prop, path));
		viol = bad.len() as u64;
		code = 1;
	}
	for e in errors.iter().take(5) {
		eprintln!("{}: simulator error: {}", prop, e);
	}
	if !errors.is_empty() && code == 0 {
		code = 2;
	}
	// ---- evidence
	let wall = t0.elapsed().as_secs_f64();
	let hours = explored.as_secs_f64() / 3600.0;
	let mut faults = String::new();
	let mut first = true;
	for i in 0..NSTAT {
		if STAT_NAMES[i].is_empty() {
			continue;
		}
		if !first {
			faults += ", ";
		}
		first = false;
		faults += &format!("{}: {}", jstr(STAT_NAMES[i]), sum.stat[i]);
	}
	let notes: Vec<String> = sum.notes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
	let other: Vec<String> = sum.other.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
	samples.sort();
	let smp: Vec<String> = samples.iter().take(4).map(|(i, s)| jstr(&format!("case {}\n{}", i, s))).collect();
	let js = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"simulated_steps\": {},\n  \"context_switches\": {},\n  \"simulated_threads\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence (from thread, to thread, code site) of all context switches of an execution\",\n  \"instrumented_edges_total\": {},\n  \"instrumented_edges_reached\": {},\n  \"endings\": {{\"completed\": {}, \"deadlock\": {}, \"step_budget\": {}, \"crashed\": {}}},\n  \"injected\": {{{}}},\n  \"observed\": {{{}}},\n  \"findings_of_other_properties\": {{{}}},\n  \"real_code\": {},\n  \"stubs\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
		jstr(prop), jstr(tier), seed, jstr(meta.level), sum.execs, distinct, jstr(&meta.rule), smp.join(", "), sum.cases,
		sum.execs as f64 / hours.max(1e-9), sum.cases as f64 / hours.max(1e-9), sum.time as f64 / 1e9, sum.points, sum.switches, sum.threads,
		sum.sched.len(), guards(), edges, sum.status[DONE as usize], sum.status[DEADLOCK as usize],
		sum.status[BUDGET as usize], sum.crashes, faults, notes.join(", "), other.join(", "), jstr(meta.real), jstr(meta.stub),
		meta.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "), wall, viol
	);
	let ev = format!("{}/evidence", root);
	std::fs::create_dir_all(&ev).ok();
	if std::env::var_os("DST_NO_EVIDENCE").is_none() {
		std::fs::write(format!("{}/{}.json", ev, prop), js).expect("cannot write the evidence file");
	}
	println!(
		"{}: {} cases, {} executions, {} distinct non-trivial, {} interleavings, {:.0} s",
		prop, sum.cases, sum.execs, distinct, sum.sched.len(), wall
	);
	for l in lines {
		println!("{}", l);
	}
	code
}

fn worker(world: World, prop: &str, seed: u64, plan: &Plan, t0: Instant, ctl: &Ctl) -> String {
	let r = Runner::new(world);
	let mut s = Sum::default();
	let mut o = String::new();
	let slow = std::env::var("DST_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0);
	loop {
		if ctl.stop.load(SeqCst) != 0 || t0.elapsed().as_secs() >= plan.secs {
			break;
		}
		let i = ctl.next.fetch_add(1, SeqCst);
		if i >= plan.runs {
			break;
		}
		let spec = gen::make(prop, seed, i);
		let t1 = Instant::now();
		let (ex, j) = r.group(&spec);
		if slow > 0.0 && t1.elapsed().as_secs_f64() > slow {
			eprintln!("{} case {}: {:.1} s, steps {:?}", prop, i, t1.elapsed().as_secs_f64(), ex.iter().map(|e| e.points).collect::<Vec<_>>());
		}
		s.cases += 1;
		let mut nt = false;
		for e in &ex {
			s.execs += 1;
			s.points += e.points;
			s.time += e.time;
			s.switches += e.switches;
			s.threads += e.threads as u64;
			s.status[(e.status as usize).min(4)] += 1;
			if let End::Crash(_) = e.end {
				s.crashes += 1;
			}
			for k in 0..NSTAT {
				s.stat[k] += e.stat[k];
			}
			for (k, n) in &e.rep.notes {
				*s.notes.entry(k.clone()).or_insert(0) += n;
			}
			for (p, _) in &e.rep.findings {
				if p != prop {
					*s.other.entry(p.clone()).or_insert(0) += 1;
				}
			}
			if s.sched.len() < 100_000 {
				s.sched.insert(e.sched);
			}
			if nontrivial(prop, e) {
				nt = true;
				let mut h = 0;
				for (k, d) in &e.rep.digests {
					h = h2(h, hash(k) ^ hash(d));
				}
				if s.outs.len() < 200_000 {
					s.outs.insert(h3(h, e.sched, hash(&spec.exprs.iter().map(|x| x.show()).collect::<Vec<_>>().join(" "))));
				}
			}
		}
		if nt && i < 4 * 16 && i % 16 == 3 {
			o += &format!("P\t{}\t{}\n", i, spec.show().replace('\n', "\\n").replace('\t', " "));
		}
		match j {
			Ok(None) => {}
			Ok(Some(m)) => {
				o += &format!("V\t{}\t{}\n", i, clean(&m));
				ctl.stop.store(1, SeqCst);
			}
			Err(e) => {
				o += &format!("X\tcase {}: {}\n", i, clean(&e));
				ctl.stop.store(1, SeqCst);
			}
		}
	}
	o += &format!("C\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", s.cases, s.execs, s.points, s.time, s.switches, s.threads, s.crashes);
	o += "T";
	s.status.iter().for_each(|x| o += &format!("\t{}", x));
	o += "\nS";
	s.stat.iter().for_each(|x| o += &format!("\t{}", x));
	o += "\n";
	for (k, n) in &s.notes {
		o += &format!("N\t{}\t{}\n", k, n);
	}
	for (k, n) in &s.other {
		o += &format!("O\t{}\t{}\n", k, n);
	}
	o += "H";
	s.sched.iter().for_each(|x| o += &format!("\t{:x}", x));
	o += "\nG";
	s.outs.iter().for_each(|x| o += &format!("\t{:x}", x));
	o += "\nEND\n";
	o
}

/// Replays a file. Exit code 1 if it shows the violation.
pub fn replay(world: World, path: &str, verbose: bool) -> i32 {
	let t = match std::fs::read_to_string(path) {
		Ok(t) => t,
		Err(e) => {
			eprintln!("{}: {}", path, e);
			return 2;
		}
	};
	let spec = match Spec::parse(&t) {
		Ok(s) => s,
		Err(e) => {
			eprintln!("{}: {}", path, e);
			return 2;
		}
	};
	let r = Runner::new(world);
	let (ex, j) = r.group(&spec);
	if verbose {
		for (i, e) in ex.iter().enumerate() {
			println!("execution {}: {:?} status {} steps {} switches {} sched {:x}", i, e.end, e.status, e.points, e.switches, e.sched);
			for l in &e.rep.log {
				println!("  {}", l);
			}
			for (p, m) in &e.rep.findings {
				println!("  finding {} {}", p, m);
			}
			for d in &e.rep.digests {
				println!("  {} {}", d.0, d.1);
			}
			println!("  {:?}", e.rep.notes);
		}
	}
	match j {
		Ok(Some(m)) => {
			println!("{}", m);
			println!("VIOLATION property={} replay={}", spec.prop, path);
			1
		}
		Ok(None) => {
			println!("{}: no violation", spec.prop);
			0
		}
		Err(e) => {
			eprintln!("simulator error: {}", e);
			2
		}
	}
}

/// Determinism of the simulator itself: every case twice, same everything.
pub fn selftest(world: World, prop: &str, seed: u64, from: u64, n: u64) -> i32 {
	let r = Runner::new(world);
	for i in from..from + n {
		let spec = gen::make(prop, seed, i);
		let t = spec.show();
		let back = Spec::parse(&t).unwrap();
		assert!(back.show() == t, "replay text");
		let (a, _) = r.group(&spec);
		let (b, _) = r.group(&back);
		for (v, (x, y)) in a.iter().zip(&b).enumerate() {
			if x.points != y.points || x.sched != y.sched || x.stat != y.stat || x.rep.show() != y.rep.show() {
				println!("{} case {} variant {}: not deterministic: points {} {} sched {:x} {:x}", prop, i, v, x.points, y.points, x.sched, y.sched);
				for (p, q) in x.rep.show().lines().zip(y.rep.show().lines()) {
					if p != q {
						println!("  {}\n  {}", p, q);
					}
				}
				return 1;
			}
		}
	}
	0
}
