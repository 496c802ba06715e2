//! What a simulated run of the pipeline recorded.
use crate::ast::Bits;
use crate::lin::Quad;

#[derive(Clone, Debug)]
pub enum Out {
	Ok(Box<OkRec>),
	Err(u64),
	/// a panic that the simulated backend raised
	Injected(u64),
	Panic(String),
	/// the run ended (deadlock, budget) before the solve returned
	Unfinished,
}

#[derive(Clone, Debug, Default)]
pub struct OkRec {
	pub energy: f64,
	pub exact: String,
	/// if it is an integer
	pub energy_i: Option<i128>,
	pub inner_i: Option<i128>,
	pub field_i: Vec<Option<i128>>,
	/// per label position in `ModelCtx::vars`
	pub bits: Vec<Option<bool>>,
	pub index: Vec<Option<bool>>,
	pub field: Vec<Option<f64>>,
	/// energy in the view itself
	pub inner: Option<f64>,
	pub keys: Vec<String>,
	pub want_keys: Vec<String>,
	pub unknown_is_none: bool,
	/// how it is printed, if that is not what it holds
	pub printed: Option<String>,
	pub occ: usize,
	pub labels: Option<Vec<u8>>,
	pub accessor_panic: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Gen {
	pub k: usize,
	pub seq: u64,
	pub ptr: usize,
	pub digest: u64,
	pub err: Option<u64>,
	pub panicked: Option<u64>,
	/// index into Hist::mats
	pub mat: usize,
	pub drop_seq: Option<u64>,
	pub drop_digest: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ans {
	pub x: Bits,
	pub preset: bool,
	/// comes with its flip costs
	pub field: bool,
	pub occ: usize,
}
#[derive(Clone, Debug)]
pub struct Run {
	pub k: usize,
	pub start: u64,
	pub end: Option<u64>,
	pub digest0: u64,
	pub digest1: u64,
	pub ans: Vec<Ans>,
	pub err: Option<u64>,
	pub panicked: Option<u64>,
	pub draws: [u64; 4],
	pub tid: usize,
}

#[derive(Clone, Debug)]
pub struct Solve {
	pub caller: u32,
	pub idx: u32,
	pub model: usize,
	pub probe: Option<u32>,
	pub start: u64,
	pub end: u64,
	pub out: Out,
	pub gens: Vec<Gen>,
	pub runs: Vec<Run>,
	pub entropy_failed: bool,
	/// entropy bytes read while the solve ran
	pub ent_bytes: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phase {
	Build,
	FeedExpr,
	Compile,
	FeedCompiled,
	Solver,
}

#[derive(Clone, Debug, Default)]
pub struct ModelHist {
	/// panic while preparing the model
	pub failed: Option<(u8, String)>,
	/// model was refused although placeholders were missing
	pub accepted_incomplete: bool,
	/// variables as the solver lists them
	pub listed: Option<Vec<String>>,
	/// index of each variable position in the backend's numbering
	pub map: Option<Vec<usize>>,
	pub n: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
	pub models: Vec<ModelHist>,
	pub solves: Vec<Solve>,
	pub mats: Vec<Quad>,
	pub seq: u64,
	pub overlap: u64,
	pub active: u64,
	pub too_large: bool,
	pub unattributed: u64,
	/// who did not come to an end while whose backend was stuck
	pub held_up: Vec<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub prop: &'static str,
	pub msg: String,
}
