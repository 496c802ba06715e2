//! A simulated operating system below an unmodified Rust program.
//!
//! The executable that links this crate gets its own `syscall` (futex, getrandom), `getrandom`,
//! `pthread_create`, `pthread_join`, `sched_yield`, `nanosleep`, `clock_nanosleep` and
//! `clock_gettime`, and a global allocator. While a simulation is active:
//!
//! * exactly one thread runs; which one is decided by a seeded policy at every *preemption point*
//!   (basic-block edges of instrumented crates, allocations, simulated system calls);
//! * futexes, sleeps and joins block in the simulator; time is virtual and jumps when all sleep;
//! * entropy comes from streams indexed by (seed, thread, call), so it does not depend on the schedule;
//! * fresh memory holds seeded garbage, freed memory is poisoned and kept in quarantine.
//!
//! Outside a simulation everything is passed through.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAXT: usize = 64;
pub const MAXSW: usize = 1 << 16;
pub const REPORT: usize = 1 << 20;
pub const NSTAT: usize = 32;

// ---------------------------------------------------------------- prng
#[inline]
pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E3779B97F4A7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}
#[inline]
pub fn h2(a: u64, b: u64) -> u64 {
	mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}
#[inline]
pub fn h3(a: u64, b: u64, c: u64) -> u64 {
	h2(h2(a, b), c)
}
/// splitmix64
#[derive(Clone, Copy)]
pub struct Prng(pub u64);
impl Prng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		mix(self.0)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			((self.next() as u128 * n as u128) >> 64) as u64
		}
	}
	pub fn unit(&mut self) -> f64 {
		((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
}

// ---------------------------------------------------------------- shared with the parent process
/// Outcome of a simulation, as the process sees it.
pub const RUNNING: u32 = 0;
pub const DONE: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const BUDGET: u32 = 3;
pub const HARNESS: u32 = 4;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Switch {
	/// points (kind 0) or the number of the forced decision (kind 1)
	pub at: u64,
	pub kind: u16,
	pub to: u16,
	pub site: u32,
}

#[repr(C)]
pub struct Shm {
	pub status: AtomicU32,
	pub reported: AtomicU32,
	pub report_len: AtomicU64,
	pub points: u64,
	pub time: u64,
	pub nsw: u32,
	pub switches_total: u64,
	pub sched_hash: u64,
	pub threads: u32,
	pub maxrunnable: u32,
	pub stat: [u64; NSTAT],
	pub sw: [Switch; MAXSW],
	pub report: [u8; REPORT],
}

/// Indices of `Shm::stat`.
pub mod st {
	pub const PREEMPT: usize = 0;
	pub const FUTEX_WAIT: usize = 1;
	pub const FUTEX_WAKE: usize = 2;
	pub const SPURIOUS: usize = 3;
	pub const ENT_CALLS: usize = 4;
	pub const ENT_EINTR: usize = 5;
	pub const ENT_SHORT: usize = 6;
	pub const ENT_FAIL: usize = 7;
	pub const SLEEP: usize = 8;
	pub const FREEZE: usize = 9;
	pub const YIELD: usize = 10;
	pub const ALLOCS: usize = 11;
	pub const FORCED: usize = 12;
	pub const TIMEJUMP: usize = 13;
	pub const REORDERED_WAKE: usize = 14;
	pub const ACCESS: usize = 15;
	// the harness' own
	pub const GEN_ERR: usize = 16;
	pub const SOLVE_ERR: usize = 17;
	pub const PANIC: usize = 18;
	pub const STALL: usize = 19;
	pub const NESTED: usize = 20;
	pub const EMPTY: usize = 21;
	pub const TIE: usize = 22;
	pub const OVERLAP: usize = 23;
	pub const BADRNG: usize = 24;
	pub const ENT_BYTES: usize = 25;
	pub const GATE: usize = 26;
	pub const GIVEUP: usize = 27;
	pub const HOT: usize = 28;
}
pub const STAT_NAMES: [&str; NSTAT] = [
	"preemptions", "futex_waits", "futex_wakes", "spurious_wakeups", "entropy_reads", "entropy_eintr",
	"entropy_short_reads", "entropy_failures", "simulated_sleeps", "thread_stalls", "yields", "allocations_with_garbage",
	"forced_decisions", "clock_jumps", "reordered_wakeups", "loads_and_stores_as_points", "backend_generate_errors", "backend_solve_errors",
	"backend_panics", "backend_stalls", "nested_parallel_calls", "empty_answers", "tied_answers", "overlapping_samples",
	"degenerate_random_streams", "entropy_bytes", "waits_for_all_other_callers", "random_generators_that_give_up", "accesses_to_shared_memory", "", "", "",
];

// ---------------------------------------------------------------- configuration
#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
	/// switch only when the running thread blocks
	NonPreempt,
	/// geometric gaps of this mean, uniform choice
	RandomWalk(u64),
	/// priorities with this many change points within so many points
	Pct(u32, u64),
	/// fixed quantum
	RoundRobin(u64),
	/// random walk (mean) with threads frozen for long windows
	Stall(u64, u64),
	/// explicit switches (replay)
	Script,
}

#[derive(Clone, Debug)]
pub struct Cfg {
	pub seed: u64,
	pub entropy: u64,
	pub policy: Policy,
	pub script: Vec<Switch>,
	pub garbage: u8,
	/// of 256
	pub spurious: u32,
	pub rand_wake: bool,
	/// of 256
	pub eintr: u32,
	pub short: u32,
	/// maximal number of points
	pub budget: u64,
	/// loads and stores are points, too
	pub mem: bool,
}

// ---------------------------------------------------------------- kernel
const FREE: u8 = 0;
const RUN: u8 = 1;
const FUTEX: u8 = 2;
const SLEEP: u8 = 3;
const JOIN: u8 = 4;
const GONE: u8 = 5;

struct Th {
	st: u8,
	addr: usize,
	bitset: u32,
	deadline: u64,
	timed_out: bool,
	go: AtomicU32,
	target: usize,
	pthread: usize,
	ent: u64,
	entoff: u64,
	waits: u64,
	wseq: u64,
	nopre: u32,
	prio: u64,
	frozen_until: u64,
	start: usize,
	arg: usize,
	ret: usize,
}

const TH0: Th = Th {
	st: FREE,
	addr: 0,
	bitset: 0,
	deadline: u64::MAX,
	timed_out: false,
	go: AtomicU32::new(0),
	target: 0,
	pthread: 0,
	ent: 0,
	entoff: 0,
	waits: 0,
	wseq: 0,
	nopre: 0,
	prio: 0,
	frozen_until: 0,
	start: 0,
	arg: 0,
	ret: 0,
};

struct Kernel {
	cfg: Option<Cfg>,
	rng: Prng,
	th: [Th; MAXT],
	nth: usize,
	cur: usize,
	points: u64,
	/// a switch is due when the harness has finished its bookkeeping
	late: bool,
	next_at: u64,
	skew: u64,
	wakeseq: u64,
	wseq: u64,
	forced: u64,
	script_pos: usize,
	script_forced: usize,
	changes: [u64; 16],
	nchanges: usize,
	change_i: usize,
	last_site: u32,
	ent_fail: bool,
	ent_fail_after: u64,
	allocs: u64,
	shm: *mut Shm,
	root: Option<Box<dyn FnOnce() + Send>>,
}

static mut ACTIVE: bool = false;
static mut K: Kernel = Kernel {
	cfg: None,
	rng: Prng(0),
	th: [TH0; MAXT],
	nth: 0,
	cur: 0,
	points: 0,
	late: false,
	next_at: u64::MAX,
	skew: 0,
	wakeseq: 0,
	wseq: 0,
	forced: 0,
	script_pos: 0,
	script_forced: 0,
	changes: [0; 16],
	nchanges: 0,
	change_i: 0,
	last_site: 0,
	ent_fail: false,
	ent_fail_after: u64::MAX,
	allocs: 0,
	shm: std::ptr::null_mut(),
	root: None,
};

// coverage of instrumented edges, shared between the processes of a check
pub const COVSIZE: usize = 1 << 18;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;

pub fn set_coverage(p: *mut u8) {
	unsafe { COV = p }
}
pub fn guards() -> u32 {
	unsafe { NGUARDS }
}

#[inline]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
	let r: isize;
	std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
		in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
	r
}
const SYS_FUTEX: usize = 202;
const SYS_GETRANDOM: usize = 318;

unsafe fn park(w: &AtomicU32) {
	while w.load(Acquire) == 0 {
		raw(SYS_FUTEX, w as *const _ as usize, 0, 0, 0, 0, 0);
	}
	w.store(0, Release);
}
unsafe fn unpark(w: &AtomicU32) {
	w.store(1, Release);
	raw(SYS_FUTEX, w as *const _ as usize, 1, 1, 0, 0, 0);
}

unsafe fn set_errno(e: i32) -> isize {
	*libc::__errno_location() = e;
	-1
}

pub fn active() -> bool {
	unsafe { ACTIVE }
}
/// Number of the running simulated thread (0 is the root).
pub fn tid() -> usize {
	unsafe { K.cur }
}
pub fn points() -> u64 {
	unsafe { K.points }
}
pub fn now() -> u64 {
	unsafe { K.skew + K.points * 20 }
}
pub fn stat_add(i: usize, n: u64) {
	unsafe {
		if !K.shm.is_null() {
			(*K.shm).stat[i] += n
		}
	}
}
/// Entropy reads made so far by all threads.
pub fn entropy_reads() -> u64 {
	unsafe { (*K.shm).stat[st::ENT_CALLS] }
}
pub fn stat(i: usize) -> u64 {
	unsafe { (*K.shm).stat[i] }
}
/// From now on entropy reads fail (after `after` more successful ones).
pub fn fail_entropy(on: bool, after: u64) {
	unsafe {
		K.ent_fail = on;
		K.ent_fail_after = after;
	}
}

/// No preemption of this thread while the guard lives (for the harness' own bookkeeping).
pub struct NoPreempt(());
impl NoPreempt {
	pub fn new() -> Self {
		unsafe {
			if ACTIVE {
				K.th[K.cur].nopre += 1
			}
		}
		NoPreempt(())
	}
}
impl Drop for NoPreempt {
	fn drop(&mut self) {
		unsafe {
			if ACTIVE {
				K.th[K.cur].nopre -= 1;
				if K.late && K.th[K.cur].nopre == 0 {
					K.late = false;
					K.next_at = K.points + 1;
				}
			}
		}
	}
}

// ---------------------------------------------------------------- scheduler
#[inline(always)]
pub fn point() {
	unsafe {
		if ACTIVE {
			K.points += 1;
			if K.points >= K.next_at {
				slow()
			}
		}
	}
}

unsafe fn finish(status: u32) -> ! {
	let shm = K.shm;
	ACTIVE = false;
	(*shm).points = K.points;
	(*shm).time = now();
	(*shm).threads = K.nth as u32;
	(*shm).status.store(status, SeqCst);
	raw(SYS_FUTEX, &(*shm).status as *const _ as usize, 1, 1, 0, 0, 0);
	loop {
		static NEVER: AtomicU32 = AtomicU32::new(0);
		raw(SYS_FUTEX, &NEVER as *const _ as usize, 0, 0, 0, 0, 0);
	}
}

unsafe fn gap() {
	let c = K.cfg.as_ref().unwrap();
	let n = match &c.policy {
		Policy::NonPreempt => u64::MAX,
		Policy::RandomWalk(m) | Policy::Stall(m, _) => {
			K.points + 1 + (-(K.rng.unit().ln()) * *m as f64) as u64
		}
		Policy::RoundRobin(q) => K.points + q,
		Policy::Pct(..) => {
			if K.change_i < K.nchanges {
				K.changes[K.change_i].max(K.points + 1)
			} else {
				u64::MAX
			}
		}
		Policy::Script => {
			while K.script_pos < c.script.len()
				&& (c.script[K.script_pos].kind != 0 || c.script[K.script_pos].at <= K.points)
			{
				K.script_pos += 1;
			}
			if K.script_pos < c.script.len() {
				c.script[K.script_pos].at
			} else {
				u64::MAX
			}
		}
	};
	// sleepers wake up by the ticking clock, too
	let mut n = n.min(c.budget);
	for i in 0..K.nth {
		let t = &K.th[i];
		if (t.st == FUTEX || t.st == SLEEP) && t.deadline != u64::MAX {
			let at = (t.deadline.saturating_sub(K.skew)) / 20 + 1;
			n = n.min(at.max(K.points + 1));
		}
	}
	K.next_at = n;
}

unsafe fn wake_timers() {
	let t = now();
	for i in 0..K.nth {
		let h = &mut K.th[i];
		if (h.st == FUTEX || h.st == SLEEP) && h.deadline <= t {
			h.st = RUN;
			h.timed_out = true;
			h.deadline = u64::MAX;
		}
	}
}

/// The next runnable thread after the current one, in cyclic order.
unsafe fn default_next(include_cur: bool) -> Option<usize> {
	for d in 1..=K.nth {
		let i = (K.cur + d) % K.nth;
		if i == K.cur && !include_cur {
			continue;
		}
		if K.th[i].st == RUN {
			return Some(i);
		}
	}
	None
}

unsafe fn record(kind: u16, at: u64, to: usize) {
	let s = &mut *K.shm;
	s.switches_total += 1;
	if (s.nsw as usize) < MAXSW {
		s.sw[s.nsw as usize] = Switch { at, kind, to: to as u16, site: K.last_site };
	}
	s.nsw = s.nsw.saturating_add(1);
}

unsafe fn go_to(n: usize) {
	if n == K.cur {
		return;
	}
	let me = K.cur;
	let s = &mut *K.shm;
	s.sched_hash = h2(s.sched_hash, (me as u64) << 48 ^ (n as u64) << 32 ^ K.last_site as u64);
	K.cur = n;
	unpark(&K.th[n].go);
	park(&K.th[me].go);
}

/// Called at a preemption point whose time has come.
#[cold]
#[inline(never)]
unsafe fn slow() {
	let c = K.cfg.as_ref().unwrap();
	let in_script = c.policy == Policy::Script;
	let force = std::mem::replace(&mut FORCE, false);
	if K.th[K.cur].nopre > 0 {
		// (in a script, a switch is recorded where it really took place)
		K.late = true;
		K.next_at = if K.points < c.budget { c.budget } else { K.points + 1_000_000 };
		return;
	}
	if K.points >= c.budget {
		finish(BUDGET);
	}
	wake_timers();
	let cur = K.cur;
	let mut cand = [0usize; MAXT];
	let mut n = 0;
	for i in 0..K.nth {
		if K.th[i].st == RUN && K.th[i].frozen_until <= K.points {
			cand[n] = i;
			n += 1;
		}
	}
	(*K.shm).maxrunnable = (*K.shm).maxrunnable.max(n as u32);
	let next = if in_script {
		let mut to = cur;
		if K.script_pos < c.script.len() {
			let s = c.script[K.script_pos];
			if s.kind == 0 && s.at == K.points {
				K.script_pos += 1;
				if (s.to as usize) < K.nth && K.th[s.to as usize].st == RUN {
					to = s.to as usize;
				}
			}
		}
		to
	} else if n == 0 {
		cur
	} else if force {
		if K.rng.chance(1, 2) && n > 1 {
			let w = [50, 500, 5_000, 50_000][K.rng.below(4) as usize];
			K.th[cur].frozen_until = K.points + 1 + K.rng.below(w);
			(*K.shm).stat[st::FREEZE] += 1;
		}
		let at = K.rng.below(n as u64) as usize;
		if cand[at] == cur {
			cand[(at + 1) % n]
		} else {
			cand[at]
		}
	} else {
		match &c.policy {
			Policy::NonPreempt | Policy::Script => cur,
			Policy::RandomWalk(_) => cand[K.rng.below(n as u64) as usize],
			Policy::Stall(_, w) => {
				if K.rng.chance(1, 24) && n > 1 {
					K.th[cur].frozen_until = K.points + 1 + K.rng.below(*w);
					(*K.shm).stat[st::FREEZE] += 1;
				}
				cand[K.rng.below(n as u64) as usize]
			}
			Policy::RoundRobin(_) => {
				let mut r = cur;
				for d in 1..=K.nth {
					let i = (cur + d) % K.nth;
					if K.th[i].st == RUN {
						r = i;
						break;
					}
				}
				r
			}
			Policy::Pct(..) => {
				if K.change_i < K.nchanges && K.points >= K.changes[K.change_i] {
					K.th[cur].prio = (K.nchanges - K.change_i) as u64;
					K.change_i += 1;
				}
				best(&cand[..n])
			}
		}
	};
	if next != cur {
		(*K.shm).stat[st::PREEMPT] += 1;
		record(0, K.points, next);
	}
	gap();
	go_to(next);
}

unsafe fn best(c: &[usize]) -> usize {
	let mut b = c[0];
	for &i in c {
		if K.th[i].prio > K.th[b].prio {
			b = i
		}
	}
	b
}

/// The current thread cannot (or does not want to) go on.
unsafe fn forced(may_stay: bool) {
	(*K.shm).stat[st::FORCED] += 1;
	let idx = K.forced;
	K.forced += 1;
	loop {
		wake_timers();
		if default_next(true).is_some() {
			break;
		}
		// everything is blocked: jump to the next deadline
		let mut d = u64::MAX;
		for i in 0..K.nth {
			if K.th[i].st == FUTEX || K.th[i].st == SLEEP {
				d = d.min(K.th[i].deadline);
			}
		}
		if d == u64::MAX {
			finish(DEADLOCK);
		}
		(*K.shm).stat[st::TIMEJUMP] += 1;
		let t = now();
		if d > t {
			K.skew += d - t;
		}
	}
	let cur = K.cur;
	let dflt = match default_next(false) {
		Some(i) => i,
		None => {
			// only this thread can run
			debug_assert!(may_stay || K.th[cur].st == RUN);
			cur
		}
	};
	let c = K.cfg.as_ref().unwrap();
	let mut cand = [0usize; MAXT];
	let mut n = 0;
	for i in 0..K.nth {
		if i != cur && K.th[i].st == RUN && K.th[i].frozen_until <= K.points {
			cand[n] = i;
			n += 1;
		}
	}
	let next = match &c.policy {
		Policy::Script => {
			let mut to = dflt;
			while K.script_forced < c.script.len()
				&& (c.script[K.script_forced].kind != 1 || c.script[K.script_forced].at < idx)
			{
				K.script_forced += 1;
			}
			if K.script_forced < c.script.len() && c.script[K.script_forced].at == idx {
				let s = c.script[K.script_forced];
				if (s.to as usize) < K.nth && K.th[s.to as usize].st == RUN {
					to = s.to as usize;
				}
			}
			to
		}
		Policy::NonPreempt | Policy::RoundRobin(_) => dflt,
		_ if n == 0 => dflt,
		Policy::Pct(..) => {
			if K.th[cur].st == RUN {
				// a yield: fall behind everyone, or spinning would starve the others
				let mut m = u64::MAX;
				for i in 0..K.nth {
					m = m.min(K.th[i].prio);
				}
				K.th[cur].prio = m.saturating_sub(1);
			}
			best(&cand[..n])
		}
		_ => cand[K.rng.below(n as u64) as usize],
	};
	if next != dflt {
		record(1, idx, next);
	} else {
		(*K.shm).switches_total += 1;
	}
	gap();
	go_to(next);
}

unsafe fn pct_check(woken: usize) {
	if let Policy::Pct(..) = K.cfg.as_ref().unwrap().policy {
		if K.th[woken].prio > K.th[K.cur].prio {
			K.next_at = K.next_at.min(K.points + 1);
		}
	}
}

// ---------------------------------------------------------------- running a simulation
unsafe extern "C" fn trampoline(arg: *mut libc::c_void) -> *mut libc::c_void {
	let me = arg as usize;
	park(&K.th[me].go);
	let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void = std::mem::transmute(K.th[me].start);
	let r = f(K.th[me].arg as *mut _);
	exit_thread(r as usize)
}

unsafe fn exit_thread(r: usize) -> ! {
	let me = K.cur;
	K.th[me].ret = r;
	K.th[me].st = GONE;
	for i in 0..K.nth {
		if K.th[i].st == JOIN && K.th[i].target == me {
			K.th[i].st = RUN;
		}
	}
	if me == 0 {
		finish(DONE);
	}
	forced(false);
	unreachable!()
}

extern "C" fn root_main(_: *mut libc::c_void) -> *mut libc::c_void {
	let f = unsafe { K.root.take().unwrap() };
	f();
	std::ptr::null_mut()
}

type PCreate = unsafe extern "C" fn(
	*mut libc::pthread_t,
	*const libc::pthread_attr_t,
	extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
	*mut libc::c_void,
) -> i32;
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
unsafe fn real_create() -> PCreate {
	if REAL_CREATE == 0 {
		REAL_CREATE = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _) as usize;
		assert!(REAL_CREATE != 0);
	}
	std::mem::transmute(REAL_CREATE)
}

unsafe fn new_thread(attr: *const libc::pthread_attr_t, start: usize, arg: usize) -> Result<usize, i32> {
	let i = K.nth;
	if i >= MAXT {
		finish(HARNESS);
	}
	K.th[i].st = RUN;
	K.th[i].start = start;
	K.th[i].arg = arg;
	K.th[i].prio = 1000 + (h2(K.cfg.as_ref().unwrap().seed, 0x7072 + i as u64) >> 20);
	K.nth += 1;
	let mut t: libc::pthread_t = 0;
	let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void =
		std::mem::transmute(trampoline as *const ());
	let r = real_create()(&mut t, attr, f, i as *mut _);
	if r != 0 {
		finish(HARNESS);
	}
	K.th[i].pthread = t as usize;
	Ok(i)
}

/// Runs `f` as the root thread of a simulated system and returns how that ended. Only once per process.
pub fn run(cfg: Cfg, shm: *mut Shm, f: Box<dyn FnOnce() + Send>) -> u32 {
	unsafe {
		real_create();
		K.shm = shm;
		K.rng = Prng(mix(cfg.seed ^ 0x5c4ed));
		if let Policy::Pct(d, len) = cfg.policy {
			let mut v: Vec<u64> = (0..d.min(16)).map(|_| 1 + K.rng.below(len)).collect();
			v.sort();
			for (i, x) in v.iter().enumerate() {
				K.changes[i] = *x;
			}
			K.nchanges = v.len();
		}
		MEM = cfg.mem;
		set_hot(cfg.seed);
		K.cfg = Some(cfg);
		K.root = Some(f);
		K.points = 0;
		let mut attr: libc::pthread_attr_t = std::mem::zeroed();
		libc::pthread_attr_init(&mut attr);
		libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
		new_thread(&attr, root_main as *const () as usize, 0).unwrap();
		K.cur = 0;
		gap();
		ACTIVE = true;
		unpark(&K.th[0].go);
		loop {
			let s = (*shm).status.load(SeqCst);
			if s != RUNNING {
				return s;
			}
			raw(SYS_FUTEX, &(*shm).status as *const _ as usize, 0, s as usize, 0, 0, 0);
		}
	}
}

// ---------------------------------------------------------------- the interposed system interface
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
	t: *mut libc::pthread_t,
	attr: *const libc::pthread_attr_t,
	f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
	arg: *mut libc::c_void,
) -> i32 {
	if !ACTIVE {
		return real_create()(t, attr, f, arg);
	}
	match new_thread(attr, f as *const () as usize, arg as usize) {
		Ok(i) => {
			*t = K.th[i].pthread as libc::pthread_t;
			pct_check(i);
			point();
			0
		}
		Err(e) => e,
	}
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
	if !ACTIVE {
		if REAL_JOIN == 0 {
			REAL_JOIN = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _) as usize;
		}
		let f: unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 =
			std::mem::transmute(REAL_JOIN);
		return f(t, ret);
	}
	let me = K.cur;
	for i in 0..K.nth {
		if K.th[i].pthread == t as usize {
			point();
			if K.th[i].st != GONE {
				K.th[me].st = JOIN;
				K.th[me].target = i;
				forced(false);
			}
			if !ret.is_null() {
				*ret = K.th[i].ret as *mut _;
			}
			return 0;
		}
	}
	libc::ESRCH
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
	if ACTIVE {
		if K.th[K.cur].nopre == 0 {
			(*K.shm).stat[st::YIELD] += 1;
			K.points += 1;
			if K.points >= K.cfg.as_ref().unwrap().budget {
				finish(BUDGET);
			}
			forced(true);
		}
		0
	} else {
		raw(24, 0, 0, 0, 0, 0, 0) as i32
	}
}

unsafe fn ts(t: *const libc::timespec) -> u64 {
	((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut libc::timespec) -> i32 {
	if ACTIVE {
		let mut n = now();
		if clk == libc::CLOCK_REALTIME {
			n += 1_600_000_000_000_000_000;
		}
		(*t).tv_sec = (n / 1_000_000_000) as i64;
		(*t).tv_nsec = (n % 1_000_000_000) as i64;
		0
	} else {
		let r = raw(228, clk as usize, t as usize, 0, 0, 0, 0);
		if r < 0 {
			set_errno(-r as i32) as i32
		} else {
			0
		}
	}
}

/// Blocks the calling thread for so much simulated time.
pub fn sleep_ns(d: u64) {
	unsafe {
		if ACTIVE {
			sleep_until(now() + d)
		}
	}
}
unsafe fn sleep_until(at: u64) {
	(*K.shm).stat[st::SLEEP] += 1;
	let me = K.cur;
	K.th[me].st = SLEEP;
	K.th[me].deadline = at;
	forced(false);
	K.th[me].timed_out = false;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
	if ACTIVE {
		sleep_until(now() + ts(req));
		0
	} else {
		let r = raw(35, req as usize, rem as usize, 0, 0, 0, 0);
		if r < 0 {
			set_errno(-r as i32) as i32
		} else {
			0
		}
	}
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
	clk: i32,
	flags: i32,
	req: *const libc::timespec,
	rem: *mut libc::timespec,
) -> i32 {
	if ACTIVE {
		let at = if flags & 1 != 0 {
			if clk == libc::CLOCK_REALTIME {
				ts(req).saturating_sub(1_600_000_000_000_000_000)
			} else {
				ts(req)
			}
		} else {
			now() + ts(req)
		};
		sleep_until(at);
		0
	} else {
		(-raw(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as i32
	}
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
	if !ACTIVE {
		let r = raw(SYS_GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0);
		return if r < 0 { set_errno(-r as i32) } else { r };
	}
	let c = K.cfg.as_ref().unwrap();
	let me = K.cur;
	if len == 0 {
		return 0;
	}
	point();
	let n = K.th[me].ent;
	K.th[me].ent += 1;
	let s = &mut (*K.shm).stat;
	s[st::ENT_CALLS] += 1;
	if K.ent_fail {
		if K.ent_fail_after == 0 {
			s[st::ENT_FAIL] += 1;
			return set_errno(libc::EIO);
		}
		K.ent_fail_after -= 1;
	}
	let f = h3(c.seed ^ 0xe117, me as u64, n);
	if (f & 255) < c.eintr as u64 {
		s[st::ENT_EINTR] += 1;
		return set_errno(libc::EINTR);
	}
	let mut m = len;
	if len > 1 && ((f >> 8) & 255) < c.short as u64 {
		s[st::ENT_SHORT] += 1;
		m = 1 + ((f >> 16) as usize % (len - 1));
	}
	s[st::ENT_BYTES] += m as u64;
	// what is delivered depends on the position in the thread's stream only, not on earlier faults
	let b = std::slice::from_raw_parts_mut(buf as *mut u8, m);
	let mut o = K.th[me].entoff;
	K.th[me].entoff += m as u64;
	for x in b {
		*x = (h3(c.entropy, me as u64, o >> 3) >> (8 * (o & 7))) as u8;
		o += 1;
	}
	m as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
	if ACTIVE {
		if n == SYS_FUTEX {
			let r = futex(a, b as i32, c as u32, d, f as u32);
			return if r < 0 { set_errno(-r as i32) } else { r };
		}
		if n == SYS_GETRANDOM {
			return getrandom(a as *mut _, b, c as u32);
		}
	}
	let r = raw(n, a, b, c, d, e, f);
	if r < 0 && r > -4096 {
		set_errno(-r as i32)
	} else {
		r
	}
}

unsafe fn futex(addr: usize, op: i32, val: u32, arg4: usize, bits: u32) -> isize {
	let cmd = op & 127;
	let me = K.cur;
	match cmd {
		0 | 9 => {
			point();
			(*K.shm).stat[st::FUTEX_WAIT] += 1;
			let w = &*(addr as *const AtomicU32);
			if w.load(SeqCst) != val {
				return -(libc::EAGAIN as isize);
			}
			let c = K.cfg.as_ref().unwrap();
			let n = K.th[me].waits;
			K.th[me].waits += 1;
			let h = h3(c.seed ^ 0x5b0, me as u64, n);
			if (h & 255) < c.spurious as u64 {
				(*K.shm).stat[st::SPURIOUS] += 1;
				return if h & 256 == 0 { 0 } else { -(libc::EINTR as isize) };
			}
			let mut dl = u64::MAX;
			if arg4 != 0 {
				let t = ts(arg4 as *const _);
				dl = if cmd == 0 {
					now() + t
				} else if op & 256 != 0 {
					t.saturating_sub(1_600_000_000_000_000_000)
				} else {
					t
				};
			}
			let t = &mut K.th[me];
			t.st = FUTEX;
			t.addr = addr;
			t.bitset = if cmd == 0 { !0 } else { bits };
			t.deadline = dl;
			t.timed_out = false;
			K.wseq += 1;
			K.th[me].wseq = K.wseq;
			forced(false);
			if K.th[me].timed_out {
				K.th[me].timed_out = false;
				return -(libc::ETIMEDOUT as isize);
			}
			0
		}
		1 | 10 => {
			(*K.shm).stat[st::FUTEX_WAKE] += 1;
			let bits = if cmd == 1 { !0 } else { bits };
			let mut woken = 0isize;
			while (woken as u32) < val {
				let mut c = [0usize; MAXT];
				let mut n = 0;
				for i in 0..K.nth {
					let t = &K.th[i];
					if t.st == FUTEX && t.addr == addr && t.bitset & bits != 0 {
						c[n] = i;
						n += 1;
					}
				}
				if n == 0 {
					break;
				}
				c[..n].sort_unstable_by_key(|&i| K.th[i].wseq);
				let cfg = K.cfg.as_ref().unwrap();
				let mut j = 0;
				if cfg.rand_wake && n > 1 {
					K.wakeseq += 1;
					j = (h2(cfg.seed ^ 0x3a7e, K.wakeseq) % n as u64) as usize;
					if j != 0 {
						(*K.shm).stat[st::REORDERED_WAKE] += 1;
					}
				}
				let i = c[j];
				K.th[i].st = RUN;
				K.th[i].deadline = u64::MAX;
				woken += 1;
				pct_check(i);
			}
			point();
			woken
		}
		_ => finish(HARNESS),
	}
}

// ---------------------------------------------------------------- instrumentation callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
	let mut p = start;
	while p < stop {
		if *p == 0 {
			NGUARDS += 1;
			*p = NGUARDS;
		}
		p = p.add(1);
	}
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
	if ACTIVE {
		let id = *g;
		if !COV.is_null() {
			// (the map is shared between processes: do not write what is there already)
			let c = COV.add(id as usize & (COVSIZE - 1));
			if *c == 0 {
				*c = 1;
			}
		}
		K.last_site = id;
		K.points += 1;
		if K.points >= K.next_at {
			slow()
		}
	}
}

static mut MEM: bool = false;
/// Memory that several threads share; switches there are more likely (out of 256).
static mut HOT: [(usize, usize); 12] = [(0, 0); 12];
static mut NHOT: usize = 0;
static mut HOTP: u64 = 0;
static mut FORCE: bool = false;

/// Threads are likely to be switched when they read or write these bytes.
pub fn hot<T: ?Sized>(x: &T) {
	unsafe {
		if NHOT < HOT.len() && std::mem::size_of_val(x) > 0 {
			HOT[NHOT] = (x as *const T as *const u8 as usize, std::mem::size_of_val(x));
			NHOT += 1
		}
	}
}
unsafe fn set_hot(seed: u64) {
	extern "C" {
		static __data_start: u8;
		static _end: u8;
	}
	let (a, b) = (&raw const __data_start as usize, &raw const _end as usize);
	HOT[0] = (a, b - a);
	NHOT = 1;
	HOTP = [0, 24, 90, 200][(h2(seed, 0x407) & 3) as usize];
}
#[inline(never)]
unsafe fn maybe_hot(a: usize) -> bool {
	for (p, n) in HOT.iter().take(NHOT) {
		if a.wrapping_sub(*p) < *n {
			let c = K.cfg.as_ref().unwrap();
			if K.th[K.cur].nopre > 0 || matches!(c.policy, Policy::Script | Policy::NonPreempt) {
				return false;
			}
			(*K.shm).stat[st::HOT] += 1;
			return K.rng.below(256) < HOTP;
		}
	}
	false
}
/// Before a load or a store, unless of the thread's own stack.
#[inline(always)]
unsafe fn access(a: usize) {
	if ACTIVE && MEM {
		let here = 0u8;
		if a.wrapping_sub(&here as *const u8 as usize).wrapping_add(4096) < 1 << 20 {
			return;
		}
		K.points += 1;
		(*K.shm).stat[st::ACCESS] += 1;
		FORCE = HOTP > 0 && maybe_hot(a);
		if FORCE || K.points >= K.next_at {
			slow()
		}
	}
}
macro_rules! access {
	($($n:ident)*) => { $(
		#[no_mangle]
		pub unsafe extern "C" fn $n(a: usize) {
			access(a)
		}
	)* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
access!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- allocator
const QN: usize = 4096;
const QBYTES: usize = 16 << 20;
static mut QUAR: [(usize, usize, usize); QN] = [(0, 0, 0); QN];
static mut QHEAD: usize = 0;
static mut QLEN: usize = 0;
static mut QSUM: usize = 0;

pub struct SimAlloc;

unsafe fn garbage(p: *mut u8, n: usize) {
	let mode = match K.cfg.as_ref() {
		Some(c) => c.garbage,
		None => return,
	};
	K.allocs += 1;
	(*K.shm).stat[st::ALLOCS] += 1;
	match mode {
		0 => std::ptr::write_bytes(p, 0, n),
		1 => std::ptr::write_bytes(p, 0xff, n),
		2 => std::ptr::write_bytes(p, 0xa5, n),
		_ => {
			let mut x = Prng(h2(mode as u64, K.allocs));
			let s = std::slice::from_raw_parts_mut(p, n);
			for ch in s.chunks_mut(8) {
				let v = x.next().to_le_bytes();
				let l = ch.len();
				ch.copy_from_slice(&v[..l]);
			}
		}
	}
}

unsafe impl GlobalAlloc for SimAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if !ACTIVE {
			return System.alloc(l);
		}
		point();
		let p = System.alloc(l);
		if !p.is_null() {
			garbage(p, l.size());
		}
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		point();
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if !ACTIVE {
			// memory that was parked in quarantine during a simulation stays there
			return System.dealloc(p, l);
		}
		point();
		std::ptr::write_bytes(p, 0xdb, l.size());
		while QLEN > 0 && (QLEN == QN || QSUM + l.size() > QBYTES) {
			let (a, s, al) = QUAR[QHEAD];
			QHEAD = (QHEAD + 1) % QN;
			QLEN -= 1;
			QSUM -= s;
			System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(s, al));
		}
		if l.size() > QBYTES / 4 {
			return System.dealloc(p, l);
		}
		QUAR[(QHEAD + QLEN) % QN] = (p as usize, l.size(), l.align());
		QLEN += 1;
		QSUM += l.size();
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if !ACTIVE {
			return System.realloc(p, l, n);
		}
		let nl = Layout::from_size_align_unchecked(n, l.align());
		let q = self.alloc(nl);
		if !q.is_null() {
			std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
			self.dealloc(p, l);
		}
		q
	}
}
