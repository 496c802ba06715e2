//! Decides the properties over a recorded history of the pipeline world.
use crate::ast::Bits;
use crate::hist::*;
use crate::lin::lsq;
use crate::model::Ctx;
use crate::spec::*;
use std::collections::HashMap;

pub struct Fit {
	pub c: f64,
	pub w: Vec<f64>,
	pub unique: bool,
	pub res: f64,
	pub tol: f64,
	/// precision of c, and of the weights
	pub ctol: f64,
	pub wtol: f64,
	/// landscape minimum over auxiliary variables, per examined point
	pub land: Vec<f64>,
	pub ok: bool,
}

#[derive(Default)]
pub struct Findings {
	pub v: Vec<Violation>,
	pub notes: HashMap<&'static str, u64>,
}
impl Findings {
	fn add(&mut self, prop: &'static str, msg: String) {
		if self.v.len() < 200 {
			self.v.push(Violation { prop, msg })
		}
	}
	fn note(&mut self, k: &'static str) {
		*self.notes.entry(k).or_insert(0) += 1;
	}
}

/// Recovers weights and constant of the problem handed to the backend.
pub fn fit(cx: &Ctx, h: &Hist, m: usize, mat: usize) -> Option<Fit> {
	let map = h.models[m].map.as_ref()?;
	if map.len() != cx.vars.len() {
		return None;
	}
	let q = &h.mats[mat];
	let anc = cx.anc(q.n, map);
	if anc.len() > 11 {
		return None;
	}
	let land: Vec<f64> = cx.pts.iter().map(|&u| q.min_over(cx.to_state(u, map), &anc).0).collect();
	let y: Vec<f64> = cx.pts.iter().zip(&land).map(|(&u, l)| l - cx.base(u)).collect();
	let mut cols = vec![vec![-1.0; y.len()]];
	let sl: Vec<Vec<f64>> = cx.pts.iter().map(|&u| cx.slopes(u)).collect();
	for l in 0..cx.labels.len() {
		cols.push(sl.iter().map(|s| s[l]).collect());
	}
	let (a, unique, res, amp) = lsq(&cols, &y);
	let tol = cx.rel * 20.0 * (cx.bound + q.scale());
	Some(Fit { c: a[0], w: a[1..].to_vec(), unique, res, tol, ctol: tol * (amp[0] / 20.0).max(1.0), wtol: tol * amp[1..].iter().fold(4.0, |a: f64, b| a.max(*b)), land, ok: res <= tol })
}

struct Round<'a> {
	gens: Vec<&'a Gen>,
	runs: Vec<&'a Run>,
	fired: Vec<u64>,
}

pub fn check(spec: &Spec, h: &Hist, cxs: &[Ctx], status: u32) -> Findings {
	let mut f = Findings::default();
	let live_ph = |m: usize| !spec.exprs[m].phs().is_empty();
	for (a, b) in &h.held_up {
		f.add("C17", format!("while the backend of caller {} is stuck, caller {} comes to no end", a, b));
	}
	for (m, mh) in h.models.iter().enumerate() {
		let missing = spec.exprs[m].phs().iter().any(|p| spec.ph[*p as usize].1 == 3);
		if let Some((ph, msg)) = &mh.failed {
			if missing {
				f.note("refused_incomplete");
				continue;
			}
			let p = *ph;
			if p == Phase::FeedExpr as u8 || p == Phase::FeedCompiled as u8 {
				f.add("C13", format!("panic while feeding placeholders: {}", msg));
			} else {
				f.add("C02", format!("panic while building or compiling: {}", msg));
				if live_ph(m) {
					f.add("C13", format!("panic while compiling with placeholders: {}", msg));
				}
			}
		} else if missing
			&& mh.accepted_incomplete
			&& (0..spec.ph.len()).any(|p| spec.ph[p].1 == 3 && cxs[m].depends(p))
		{
			f.add("C13", "a compiled model with a missing placeholder was accepted".into());
		}
	}
	let mut fits: HashMap<(usize, usize), Option<Fit>> = HashMap::new();
	let mut draws: HashMap<u64, (u32, u32, usize)> = HashMap::new();
	for s in &h.solves {
		let cx = &cxs[s.model];
		let mh = &h.models[s.model];
		let (samples, iters, gens) = if s.probe.is_some() {
			(1, 1, 1)
		} else {
			let c = spec.settings(s.caller, s.idx);
			(c.0 as usize, c.1 as usize, c.2 as usize)
		};
		let who = format!("caller {} solve {}{}", s.caller, s.idx, if s.probe.is_some() { " (probe)" } else { "" });
		// ---- randomness
		for r in &s.runs {
			if s.probe.is_some() && r.draws == [0; 4] {
				continue;
			}
			for d in r.draws {
				if let Some(o) = draws.insert(d, (s.caller, s.idx, r.k)) {
					if o != (s.caller, s.idx, r.k) {
						f.add("C08", format!("{}: run {} and run {:?} draw the same numbers", who, r.k, o));
					}
				}
			}
		}
		if s.entropy_failed {
			if !s.runs.is_empty() && matches!(spec.entfail, Some((_, _, 0))) {
				f.add("C08", format!("{}: {} sample(s) ran although no entropy was available", who, s.runs.len()));
			}
			if let Out::Ok(_) = s.out {
				f.add("C08", format!("{}: returned an answer although no entropy was available", who));
			} else {
				f.note("loud_entropy_failure");
			}
		}
		if s.probe.is_none() && spec.callers.len() == 1 && s.ent_bytes < 8 * s.runs.len() as u64 {
			f.add("C08", format!("{}: {} runs, but only {} bytes of entropy were read", who, s.runs.len(), s.ent_bytes));
		}
		// ---- rounds
		let nr = (s.gens.len() + samples - 1) / samples;
		let mut rounds: Vec<Round> = (0..nr).map(|_| Round { gens: vec![], runs: vec![], fired: vec![] }).collect();
		for g in &s.gens {
			let r = &mut rounds[g.k / samples];
			r.gens.push(g);
			r.fired.extend(g.err.iter().chain(g.panicked.iter()));
		}
		for r in &s.runs {
			let o = &mut rounds[r.k / samples];
			o.runs.push(r);
			o.fired.extend(r.err.iter().chain(r.panicked.iter()));
		}
		let fired: Vec<usize> = (0..nr).filter(|r| !rounds[*r].fired.is_empty()).collect();
		let finished = !matches!(s.out, Out::Unfinished);
		// ---- termination
		if !finished {
			let why = match status {
				simos::DEADLOCK => "deadlock: every thread is blocked",
				simos::BUDGET => "no end within the step budget",
				_ => "solve did not return",
			};
			for p in ["C05", "C06", "C17", "C07"] {
				f.add(p, format!("{}: {}", who, why));
			}
		}
		match &s.out {
			Out::Panic(m) if !s.entropy_failed => {
				let msg = format!("{}: unexpected panic: {}", who, m);
				f.add("C05", msg.clone());
				f.add("C06", msg.clone());
				f.add("C17", msg.clone());
				if s.runs.is_empty() {
					f.add("C02", msg.clone());
				}
				f.add("C14", msg);
			}
			_ => {}
		}
		// ---- failures
		if let Some(&fr) = fired.first() {
			f.note("failed_rounds");
			let codes = &rounds[fr].fired;
			match &s.out {
				Out::Ok(_) => f.add("C06", format!("{}: returned a solution although round {} failed", who, fr)),
				Out::Err(c) | Out::Injected(c) => {
					if !codes.contains(c) {
						f.add("C06", format!("{}: surfaced failure {} which round {} did not produce", who, c, fr));
					}
				}
				_ => {}
			}
			if nr > fr + 1 {
				f.add("C06", format!("{}: went on with round {} after round {} failed", who, fr + 1, fr));
			}
			let any_err = rounds[fr].gens.iter().any(|g| g.err.is_some()) || rounds[fr].runs.iter().any(|r| r.err.is_some());
			let any_pan = rounds[fr].gens.iter().any(|g| g.panicked.is_some())
				|| rounds[fr].runs.iter().any(|r| r.panicked.is_some());
			match &s.out {
				Out::Err(_) if !any_err => f.add("C06", format!("{}: error out of nothing", who)),
				Out::Injected(_) if !any_pan => f.add("C06", format!("{}: an error became a panic", who)),
				_ => {}
			}
		} else {
			match &s.out {
				Out::Err(c) => f.add("C06", format!("{}: error {} without any failure", who, c)),
				Out::Injected(c) => f.add("C06", format!("{}: panic {} without any failure", who, c)),
				_ => {}
			}
		}
		// ---- samples and lifetime of the problem
		for (ri, r) in rounds.iter().enumerate() {
			let bad = !r.fired.is_empty() || !finished || matches!(s.out, Out::Panic(_));
			if !bad && r.gens.len() != samples {
				f.add("C07", format!("{}: round {} has {} samples, not {}", who, ri, r.gens.len(), samples));
			}
			let mut runs: HashMap<usize, u32> = HashMap::new();
			for x in &r.runs {
				*runs.entry(x.k).or_insert(0) += 1;
			}
			for g in &r.gens {
				let n = runs.get(&g.k).cloned().unwrap_or(0);
				if n > 1 || (n != 1 && !bad) {
					f.add("C07", format!("{}: sample {} ran {} times", who, g.k, n));
				}
				if g.ptr != r.gens[0].ptr || g.digest != r.gens[0].digest {
					f.add("C07", format!("{}: sample {} was given another problem than sample {}", who, g.k, r.gens[0].k));
				}
				if g.err.is_none() && g.panicked.is_none() {
					match g.drop_seq {
						None => {
							if finished {
								f.add("C07", format!("{}: sample {} never dropped", who, g.k))
							}
						}
						Some(d) => {
							if finished && d > s.end {
								f.add("C07", format!("{}: sample {} outlives the solve", who, g.k));
							}
							if g.drop_digest != g.digest {
								f.add("C07", format!("{}: the problem of sample {} was gone or changed when it was dropped", who, g.k));
							}
							if let Some(x) = s.runs.iter().find(|x| x.k == g.k && x.end.map_or(true, |e| e > d)) {
								if finished {
									f.add("C07", format!("{}: sample {} dropped while running", who, x.k));
								}
							}
						}
					}
				}
			}
			for x in &r.runs {
				let g = s.gens.iter().find(|g| g.k == x.k);
				if let Some(g) = g {
					if x.digest0 != g.digest || (x.end.is_some() && x.digest1 != g.digest) {
						f.add("C07", format!("{}: the problem changed or died while sample {} ran", who, x.k));
					}
				}
				if finished && x.end.map_or(true, |e| e > s.end) {
					f.add("C07", format!("{}: sample {} still running when the solve returned", who, x.k));
				}
				if ri + 1 < nr {
					let next = rounds[ri + 1].gens.iter().map(|g| g.seq).min().unwrap_or(u64::MAX);
					if x.end.map_or(true, |e| e > next) {
						f.add("C07", format!("{}: sample {} still running in the next round", who, x.k));
					}
				}
			}
		}
		if !fired.is_empty() || !finished || matches!(s.out, Out::Panic(_)) {
			continue;
		}
		// ---- budget of rounds
		if nr > iters * gens {
			f.add("C05", format!("{}: {} rounds, but the budget is {}", who, nr, iters * gens));
		}
		let rec = match &s.out {
			Out::Ok(r) => r,
			_ => continue,
		};
		// ---- completeness of the solution
		if let Some(m) = &rec.accessor_panic {
			f.add("C14", format!("{}: accessor panicked: {}", who, m));
			if rec.bits.iter().any(|b| b.is_none()) {
				f.add("C02", format!("{}: a variable is missing from the solution", who));
			}
			continue;
		}
		if rec.keys != rec.want_keys {
			f.add("C14", format!("{}: solution has variables {:?}, the problem {:?}", who, rec.keys, rec.want_keys));
			if rec.want_keys.iter().any(|k| !rec.keys.contains(k)) {
				f.add("C02", format!("{}: compilation lost a variable: {:?} of {:?}", who, rec.keys, rec.want_keys));
			}
		}
		if let Some(l) = &mh.listed {
			if l != &rec.want_keys {
				f.add("C14", format!("the solver lists the variables {:?}, the problem has {:?}", l, rec.want_keys));
			}
		}
		if rec.bits.iter().any(|b| b.is_none()) {
			f.add("C02", format!("{}: a variable is missing from the solution", who));
			f.add("C14", format!("{}: a variable has no value", who));
			continue;
		}
		if rec.bits != rec.index {
			f.add("C14", format!("{}: get and index disagree: {:?} {:?}", who, rec.bits, rec.index));
		}
		if let Some(p) = &rec.printed {
			f.add("C14", format!("{}: printed as {} but it has {:?}", who, p, rec.bits));
		}
		if !rec.unknown_is_none {
			f.add("C14", format!("{}: a value for a variable that does not exist", who));
		}
		let mut u: Bits = 0;
		for (i, b) in rec.bits.iter().enumerate() {
			if *b == Some(true) {
				u |= 1 << i
			}
		}
		// ---- violation report
		let viol = cx.violations(u);
		if let Some(l) = &rec.labels {
			if l != &viol {
				f.add("C04", format!("{}: reported violations {:?}, actual {:?}", who, l, viol));
			}
		}
		let satisfied = viol.is_empty();
		// ---- energy, with nothing violated
		let btol = cx.rel * 20.0 * cx.bound.max(rec.energy.abs() * 1e-3);
		let base = cx.base(u);
		// (what counts as satisfied may still weigh a little)
		let btol = btol + cx.slopes(u).iter().map(|s| s.abs()).sum::<f64>() * spec.settings(s.caller, s.idx).3.f();
		if satisfied && s.probe.is_none() {
			if cx.degree <= 2 && (rec.energy - base).abs() > btol {
				f.add("C01", format!("{}: reported energy {}, value {}", who, rec.energy, base));
			} else if cx.degree <= 2 && !cx.float && rec.energy_i != cx.base_i(u) {
				f.add("C01", format!("{}: reported energy {}, value {:?}", who, rec.exact, cx.base_i(u)));
			} else if rec.energy < base - btol {
				f.add("C01", format!("{}: reported energy {} below the value {}", who, rec.energy, base));
			}
		}
		if rec.energy.is_nan() {
			f.add("C01", format!("{}: energy is not a number", who));
		}
		let map = match &mh.map {
			Some(m) if m.len() == cx.vars.len() => m,
			_ => continue,
		};
		for r in &rounds {
			if let Some(g) = r.gens.first() {
				fits.entry((s.model, g.mat)).or_insert_with(|| fit(cx, h, s.model, g.mat));
			}
		}
		if s.probe.is_some() {
			continue;
		}
		let fitr = |r: usize| -> Option<&Fit> {
			rounds[r].gens.first().and_then(|g| fits.get(&(s.model, g.mat)).and_then(|x| x.as_ref()))
		};
		// ---- winners
		struct Win {
			tol: f64,
			min: f64,
			cands: Vec<(Bits, usize)>,
			all: Vec<(Bits, usize, f64)>,
		}
		let mut wins = vec![];
		for r in &rounds {
			let q = &h.mats[r.gens[0].mat];
			let tol = cx.rel * q.scale();
			let all: Vec<(Bits, usize, f64)> =
				r.runs.iter().flat_map(|x| x.ans.iter().map(|a| (a.x, a.occ, q.energy(a.x)))).collect();
			let min = all.iter().fold(f64::INFINITY, |m, a| m.min(a.2));
			let least = all.iter().map(|a| q.energy_i(a.0)).min().flatten();
			let cands = match least {
				Some(_) => all.iter().filter(|a| q.energy_i(a.0) == least).map(|a| (a.0, a.1)).collect(),
				None => all.iter().filter(|a| a.2 <= min + tol).map(|a| (a.0, a.1)).collect(),
			};
			wins.push(Win { tol, min, cands, all });
		}
		// ---- stop rule
		let mut ambiguous = false;
		for r in 0..nr {
			let fs: Vec<bool> = wins[r].cands.iter().map(|c| cx.feasible(cx.to_user(c.0, map))).collect();
			if fs.is_empty() {
				continue;
			}
			let (allf, nof) = (fs.iter().all(|b| *b), fs.iter().all(|b| !*b));
			if allf {
				f.note("satisfied_rounds");
				if r + 1 < nr {
					f.add("C05", format!("{}: went on after round {} satisfied every constraint", who, r));
				} else if !wins[r].cands.iter().any(|c| cx.to_user(c.0, map) == u) {
					f.add("C05", format!("{}: round {} satisfied every constraint but its winner was not returned", who, r));
				}
			} else if nof {
				f.note("unsatisfied_rounds");
				if r + 1 == nr && nr < iters * gens {
					f.add(
						"C05",
						format!("{}: stopped after {} of {} rounds without satisfying every constraint", who, nr, iters * gens),
					);
				}
			} else {
				ambiguous = true;
				f.note("ambiguous_rounds");
			}
		}
		// ---- the returned answer
		let mut origin: Vec<(usize, Bits, usize)> = vec![];
		let mut seen_anywhere = false;
		for r in 0..nr {
			for a in &wins[r].all {
				if cx.to_user(a.0, map) == u {
					seen_anywhere = true;
				}
			}
			for c in &wins[r].cands {
				if cx.to_user(c.0, map) == u && (!satisfied || r + 1 == nr) {
					origin.push((r, c.0, c.1));
				}
			}
		}
		if origin.is_empty() {
			f.add(
				"C03",
				format!(
					"{}: returned assignment {:b} {}",
					who,
					u,
					if seen_anywhere { "was beaten by a better answer of its round" } else { "was never given by the backend" }
				),
			);
			if !seen_anywhere {
				f.add("C14", format!("{}: returned assignment {:b} was never given by the backend", who, u));
			}
			continue;
		}
		// ---- energy under the weights of its round
		let matching: Vec<(usize, Bits, usize)> = origin
			.iter()
			.cloned()
			.filter(|(r, x, _)| match fitr(*r) {
				Some(ft) if ft.ok && ft.unique => {
					let q = &h.mats[rounds[*r].gens[0].mat];
					(q.energy(*x) + ft.c - rec.energy).abs() <= ft.ctol + wins[*r].tol
				}
				Some(ft) if ft.ok && satisfied => {
					let q = &h.mats[rounds[*r].gens[0].mat];
					let anc = cx.anc(q.n, map);
					let excess = q.energy(*x) - q.min_over(*x, &anc).0;
					(base + excess - rec.energy).abs() <= ft.tol + wins[*r].tol + btol
				}
				_ => true,
			})
			.filter(|(r, x, _)| {
				// integers exactly
				let q = &h.mats[rounds[*r].gens[0].mat];
				let anc = cx.anc(q.n, map);
				match (satisfied && anc.len() <= 11, cx.base_i(u), q.energy_i(*x), rec.energy_i) {
					(true, Some(b), Some(e), Some(y)) => q.min_over_i(*x, &anc).map_or(true, |m| b + (e - m) == y),
					_ => true,
				}
			})
			.collect();
		if matching.is_empty() {
			let r = origin[0].0;
			let w = fitr(r).map_or(vec![], |f| f.w.clone());
			let c = fitr(r).map_or(0.0, |f| f.c);
			let q = &h.mats[rounds[r].gens[0].mat];
			f.add(
				"C01",
				format!(
					"{}: reported energy {} but the returned assignment {:b} has {} under the weights {:?} of round {}",
					who,
					rec.energy,
					u,
					q.energy(origin[0].1) + c,
					w,
					r
				),
			);
		} else if !satisfied {
			f.note("energy_checked_unsatisfied");
		}
		let from = if matching.is_empty() { &origin } else { &matching };
		// ---- no better answer in the final restart
		if !satisfied && nr == iters * gens && !ambiguous {
			for r in (iters - 1) * gens..nr {
				if let Some(ft) = fitr(r) {
					if ft.ok && ft.unique && wins[r].min + ft.c < rec.energy - 2.0 * (ft.ctol + wins[r].tol) {
						f.add(
							"C03",
							format!(
								"{}: returned energy {}, but round {} of the final restart had an answer with {}",
								who,
								rec.energy,
								r,
								wins[r].min + ft.c
							),
						);
						break;
					}
				}
			}
			f.note("final_restart_compared");
		}
		// ---- pass-through and flip costs
		if !from.iter().any(|o| o.2 == rec.occ) {
			f.add("C14", format!("{}: occurrences {} but the backend said {:?}", who, rec.occ, from.iter().map(|o| o.2).collect::<Vec<_>>()));
		}
		if !from.iter().any(|(r, x, _)| {
			let q = &h.mats[rounds[*r].gens[0].mat];
			rec.inner.map_or(false, |e| (e - q.energy(*x)).abs() <= wins[*r].tol * 4.0) && (q.wi.is_empty() || rec.inner_i == q.energy_i(*x))
		}) {
			f.add("C14", format!("{}: the solution carries the energy {:?}, which is not that of its answer", who, rec.inner));
		}
		let good = from.iter().any(|(r, x, _)| {
			let q = &h.mats[rounds[*r].gens[0].mat];
			map.iter().enumerate().all(|(p, i)| match rec.field[p] {
				None => false,
				Some(v) => (v - q.flip(*x, *i)).abs() <= wins[*r].tol * 4.0 && (q.wi.is_empty() || rec.field_i[p] == q.flip_i(*x, *i)),
			})
		});
		if !good {
			let (r, x, _) = from[0];
			let q = &h.mats[rounds[r].gens[0].mat];
			f.add(
				"C14",
				format!(
					"{}: flip costs {:?}, true ones {:?}",
					who,
					rec.field,
					map.iter().map(|i| q.flip(x, *i)).collect::<Vec<_>>()
				),
			);
		}
		// ---- weights
		let nl = cx.labels.len();
		if nl > 0 {
			let strength = spec.settings(s.caller, s.idx).3.f();
			for it in 0..iters {
				let mut best = f64::INFINITY;
				let mut prev: Option<(Vec<f64>, Option<(bool, Vec<u8>)>)> = None;
				for g in 0..gens {
					let r = it * gens + g;
					if r >= nr {
						break;
					}
					let ft = match fitr(r) {
						Some(ft) if ft.ok && ft.unique => ft,
						_ => break,
					};
					let int = !cx.float;
					// precision of the recovered weights
					let wt = (ft.wtol * 4.0).max(cx.rel * strength) + if int { 1.0 } else { 0.0 };
					let eps = ft.wtol.max(cx.rel * strength) + if int { 1e-3 } else { 0.0 };
					let sum: f64 = ft.w.iter().sum();
					if (sum - strength).abs() > wt * nl as f64 {
						f.add("C12", format!("{}: weights {:?} of round {} do not total {}", who, ft.w, r, strength));
					}
					if g == 0 {
						for w in &ft.w {
							if (w - strength / nl as f64).abs() > wt || (*w <= 0.0 && eps < strength / nl as f64 / 2.0 && !(int && strength < nl as f64)) {
								f.add("C12", format!("{}: weights {:?} of the first round of a restart are not equal", who, ft.w));
								break;
							}
						}
					}
					if let Some((pw, Some((newbest, vl)))) = &prev {
						let v: Vec<bool> = cx.labels.iter().map(|l| vl.contains(l)).collect();
						if *newbest && v.iter().any(|b| *b) && v.iter().any(|b| !*b) {
							f.note("weights_adapted");
							for i in 0..nl {
								for j in 0..nl {
									if v[i] && !v[j] {
										let gain = ft.w[i] * pw[j] - pw[i] * ft.w[j];
										let sl = if int { pw[i] + pw[j] + 1.0 } else { 0.0 };
										let noise = eps * (pw[i].abs() + pw[j].abs() + 2.0 * eps);
										// a step is one of (10 + number of rounds) parts, far more than a thousandth
										let none = !int && gain <= noise && noise < 1e-3 * pw[i].abs() * pw[j].abs();
										if gain < -sl - noise || none {
											f.add(
												"C12",
												format!(
													"{}: labels {:?} were violated in round {}, but weights went from {:?} to {:?}",
													who, vl, r - 1, pw, ft.w
												),
											);
										}
									}
								}
								if !v[i] && ft.w[i] > pw[i] + if int { 1.0 } else { eps } {
									f.add(
										"C12",
										format!("{}: a satisfied label did not lose weight: {:?} to {:?}", who, pw, ft.w),
									);
								}
							}
						} else if !*newbest {
							f.note("weights_kept");
							if (0..nl).any(|i| (ft.w[i] - pw[i]).abs() > eps) {
								f.add(
									"C12",
									format!("{}: weights changed from {:?} to {:?} without a new best answer", who, pw, ft.w),
								);
							}
						}
					}
					let tot = wins[r].min + ft.c;
					let t2 = 2.0 * (ft.ctol + wins[r].tol);
					let mut vs: Vec<Vec<u8>> = wins[r].cands.iter().map(|c| cx.violated_labels(cx.to_user(c.0, map))).collect();
					vs.sort();
					vs.dedup();
					let info = if vs.len() != 1 {
						None
					} else if tot < best - t2 {
						Some((true, vs[0].clone()))
					} else if tot > best + t2 || (int && tot >= best - 1e-6) {
						Some((false, vs[0].clone()))
					} else {
						None
					};
					best = best.min(tot);
					let stop = info.is_none();
					prev = Some((ft.w.clone(), info));
					if stop {
						// what happens after a tie is not specified
						break;
					}
				}
			}
			// in the long run integers cannot hide it in the rounding
			if !cx.float && spec.strength.0 >= 1000 {
				f.note("integer_weights_fine");
			}
		}
	}
	let mut keys: Vec<_> = fits.keys().cloned().collect();
	keys.sort();
	for k in keys {
		if let Some(Some(ft)) = fits.get(&k).map(|x| x.as_ref().map(|y| y)) {
			f.note("landscapes");
			let cx = &cxs[k.0];
			if let (true, Some(map)) = (ft.ok && cx.labels.is_empty() && !cx.float, &h.models[k.0].map) {
				let q = &h.mats[k.1];
				let anc = cx.anc(q.n, map);
				let mut c = cx.pts.iter().map(|&u| {
					Some(q.min_over_i(cx.to_state(u, map), &anc)?.wrapping_sub(cx.base_i(u)?))
				});
				f.note("exact_landscapes");
				let first = c.next();
				if let Some(d) = c.find(|d| Some(d) != first.as_ref()) {
					f.add("C02", format!("problem {}: the landscape differs from that of the expression by {:?} here, {:?} there", k.0, first, d));
				}
			}
			if !ft.ok {
				f.add(
					"C02",
					format!(
						"problem {}: no weights and constant make the landscape that of the expression (residual {}, allowed {})",
						k.0, ft.res, ft.tol
					),
				);
			}
		}
	}
	// with placeholders in it, all of this is about feeding, too
	let mut extra = vec![];
	for v in &f.v {
		if matches!(v.prop, "C01" | "C02" | "C04") && (0..spec.exprs.len()).any(|m| live_ph(m)) {
			extra.push(Violation { prop: "C13", msg: format!("with placeholders: {}", v.msg) });
		}
	}
	f.v.extend(extra);
	f
}

/// What a caller can see of a solve, for comparison between executions. (exact, tolerant)
pub fn digest(s: &Solve) -> String {
	match &s.out {
		Out::Ok(r) => {
			let mut l = r.labels.clone().unwrap_or_default();
			l.sort();
			format!("ok {} {:?} {:?} {} {:?}", r.exact, r.bits.iter().map(|b| b.map(|b| b as u8)).collect::<Vec<_>>(), l, r.occ, r.field)
		}
		Out::Err(c) => format!("err {}", c),
		Out::Injected(c) => format!("panic {}", c),
		Out::Panic(m) => format!("unexpected panic {}", m),
		Out::Unfinished => "unfinished".into(),
	}
}
