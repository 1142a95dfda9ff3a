//! Property runner: drives proptest from an explicit seed, counts what it
//! generated, shrinks failures and writes them out as replayable JSON.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What a single case did; filled in by the property.
#[derive(Debug, Default, Clone)]
pub struct Obs {
	pub nontrivial: bool,
	pub labels: Vec<&'static str>,
	/// How many inner evaluations this case stands for (1 unless batched).
	pub weight: u64,
}

impl Obs {
	pub fn nontrivial(&mut self) { self.nontrivial = true; }
	pub fn nontrivial_if(&mut self, b: bool) { if b { self.nontrivial = true; } }
	pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
	pub fn label_if(&mut self, b: bool, l: &'static str) { if b { self.labels.push(l); } }
}

/// Failing cases leave so much behind that shrinking had better end.
static TIRED: AtomicBool = AtomicBool::new(false);

/// Shrink no further.
pub fn tire() { TIRED.store(true, Ordering::SeqCst); }

/// A property: a generator and an oracle.
pub trait Prop {
	type Case: Debug + Clone + Serialize + DeserializeOwned + 'static;

	/// Stable name of this (sub)check, unique within the binary.
	const NAME: &'static str;
	/// How cases are made and what makes one non-trivial.
	const RULE: &'static str;

	/// The generator.
	fn strategy(&self) -> BoxedStrategy<Self::Case>;

	/// Hand-picked cases that are always run first.
	fn fixed(&self) -> Vec<Self::Case> { Vec::new() }

	/// The oracle.
	fn check(&self, case: &Self::Case, obs: &mut Obs) -> Result<(), String>;

	/// Further shrinking of a failing case, for checks with their own way of
	/// doing that. The result must still fail.
	fn minimize(&self, case: Self::Case) -> Self::Case { case }

	/// Shrink budget.
	fn shrink_iters(&self) -> u32 { 20_000 }

	/// Shrink budget, in seconds.
	fn shrink_secs(&self) -> u32 { 60 }
}

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
	/// Set while a panic should be captured rather than printed.
	static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Milliseconds since start at which the current case began (0 = idle).
static CASE_START: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if QUIET.with(Cell::get) {
			LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
		}
		else { old(info); }
	}));
}

/// Run a closure turning panics into `Err`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let was = QUIET.with(|q| q.replace(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(was));
	r.map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// Mark the current thread's panics as captured (for worker threads).
pub fn quiet_thread() { QUIET.with(|q| q.set(true)); }
pub fn take_last_panic() -> String { LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }

fn fnv(s: &str) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	s.hash(&mut h);
	h.finish()
}

/// Command line of one job.
#[derive(Debug, Clone)]
pub struct Job {
	pub name: String,
	pub cases: u32,
	pub seed: u64,
	pub shard: u64,
	pub out: Option<String>,
	pub replay: Option<String>,
	pub case_timeout: u64,
	/// Write every case here before running it (to identify one that takes
	/// the whole process down).
	pub trace: Option<String>,
}

impl Job {
	pub fn from_args() -> Self {
		let mut j = Job { name: String::new(), cases: 100, seed: 1, shard: 0, out: None, replay: None, case_timeout: 120, trace: None };
		let mut it = std::env::args().skip(1);
		j.name = it.next().expect("usage: <check> [--cases N] [--seed N] [--shard N] [--out F] [--replay F]");
		while let Some(a) = it.next() {
			let mut v = || it.next().expect("missing value");
			match a.as_str() {
				"--cases" => j.cases = v().parse().unwrap(),
				"--seed" => j.seed = v().parse().unwrap(),
				"--shard" => j.shard = v().parse().unwrap(),
				"--out" => j.out = Some(v()),
				"--replay" => j.replay = Some(v()),
				"--trace" => j.trace = Some(v()),
				"--case-timeout" => j.case_timeout = v().parse().unwrap(),
				_ => panic!("unknown option {a}"),
			}
		}
		j
	}
}

/// Result of a whole job, written as JSON for the driver.
#[derive(Debug, Default, Serialize)]
pub struct Report {
	pub check: String,
	pub rule: String,
	pub evaluations: u64,
	#[serde(skip)]
	pub hashes: Vec<u64>,
	pub labels: BTreeMap<String, u64>,
	pub samples: Vec<serde_json::Value>,
	pub failure: Option<Failure>,
}

#[derive(Debug, Serialize)]
pub struct Failure {
	pub message: String,
	pub case: serde_json::Value,
}

/// Run one property according to the job; returns the process exit code:
/// 0 held, 1 violated, 2 error.
pub fn run<P: Prop>(prop: &P, job: &Job) -> i32 {
	let eval = |case: &P::Case, obs: &mut Obs| -> Result<(), String> {
		if let Some(f) = &job.trace {
			let v = serde_json::json!({ "case": case });
			std::fs::write(f, v.to_string()).expect("write trace");
		}
		CASE_START.store(now_ms().max(1), Ordering::SeqCst);
		let r = match guarded(|| prop.check(case, obs)) {
			Ok(r) => r,
			Err(p) => Err(p),
		};
		CASE_START.store(0, Ordering::SeqCst);
		r
	};

	if let Some(path) = &job.replay {
		let txt = std::fs::read_to_string(path).expect("replay file");
		let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
		let case: P::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
		spawn_watchdog(job.case_timeout, String::new());
		let mut obs = Obs::default();
		return match eval(&case, &mut obs) {
			Ok(()) => { println!("replay: property held"); 0 },
			Err(e) => { println!("replay: FAILED: {e}"); 1 },
		};
	}

	spawn_watchdog(job.case_timeout, job.out.clone().unwrap_or_default());

	let report = RefCell::new(Report {
		check: P::NAME.to_owned(),
		rule: P::RULE.to_owned(),
		..Report::default()
	});
	let hashes = RefCell::new(HashSet::new());
	let failed = Cell::new(false);
	let counted = |case: &P::Case| -> Result<(), String> {
		// No more shrinking.
		if failed.get() && TIRED.load(Ordering::SeqCst) { return Ok(()); }
		let mut obs = Obs::default();
		let r = eval(case, &mut obs);
		if ! failed.get() {
			let mut rep = report.borrow_mut();
			rep.evaluations += obs.weight.max(1);
			for l in &obs.labels { *rep.labels.entry((*l).to_owned()).or_default() += 1; }
			if obs.nontrivial {
				let js = serde_json::to_string(case).unwrap();
				let fresh = hashes.borrow_mut().insert(fnv(&js));
				if fresh && rep.samples.len() < 3 && js.len() < 3000 && rep.evaluations % 3 == 0 {
					rep.samples.push(serde_json::from_str(&js).unwrap());
				}
			}
		}
		if let Err(e) = &r && ! failed.replace(true) {
			// (In case there is no time left for shrinking.)
			if let Some(out) = &job.out {
				let v = serde_json::json!({ "message": e, "case": case });
				let tmp = format!("{out}.fail.tmp");
				if std::fs::write(&tmp, v.to_string()).is_ok() { let _ = std::fs::rename(&tmp, format!("{out}.fail")); }
			}
		}
		r
	};

	// Fixed cases (only the first shard needs them).
	let mut failure = None;
	if job.shard == 0 {
		for case in prop.fixed() {
			if let Err(e) = counted(&case) {
				failure = Some(Failure { message: e, case: serde_json::to_value(&case).unwrap() });
				break;
			}
		}
	}

	if failure.is_none() && job.cases != 0 {
		let mut seed = [0_u8; 32];
		seed[..8].copy_from_slice(&job.seed.to_le_bytes());
		seed[8..16].copy_from_slice(&job.shard.to_le_bytes());
		seed[16..24].copy_from_slice(&fnv(P::NAME).to_le_bytes());
		let config = Config {
			cases: job.cases,
			failure_persistence: None,
			max_shrink_iters: prop.shrink_iters(),
			max_shrink_time: prop.shrink_secs() * 1000,
			max_global_rejects: 1_000_000,
			.. Config::default()
		};
		let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
		match runner.run(&prop.strategy(), |case| counted(&case).map_err(TestCaseError::fail)) {
			Ok(()) => {},
			Err(TestError::Fail(reason, case)) => {
				failure = Some(Failure {
					message: reason.message().to_owned(),
					case: serde_json::to_value(&case).unwrap(),
				});
			},
			Err(TestError::Abort(r)) => {
				eprintln!("generator gave up: {r}");
				return 2;
			},
		}
	}

	if let Some(f) = failure.take() {
		let case: P::Case = serde_json::from_value(f.case.clone()).expect("round trip");
		let case = prop.minimize(case);
		failure = Some(match eval(&case, &mut Obs::default()) {
			Err(message) => Failure { message, case: serde_json::to_value(&case).unwrap() },
			Ok(()) => f,
		});
	}

	let mut report = report.into_inner();
	report.hashes = hashes.into_inner().into_iter().collect();
	let code = i32::from(failure.is_some());
	report.failure = failure;
	if let Some(out) = &job.out {
		let raw: Vec<u8> = report.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
		std::fs::write(format!("{out}.hashes"), raw).expect("write hashes");
		std::fs::write(out, serde_json::to_string(&report).unwrap()).expect("write report");
	}
	else {
		println!("{}: {} cases, {} distinct non-trivial, labels {:?}", report.check, report.evaluations, report.hashes.len(), report.labels);
		if let Some(f) = &report.failure { println!("FAILED: {}\n{}", f.message, f.case); }
	}
	code
}

fn now_ms() -> u64 {
	static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// A case that does not come back ends the process. (The driver looks into
/// it.)
fn spawn_watchdog(secs: u64, out: String) {
	now_ms();
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(500));
		let s = CASE_START.load(Ordering::SeqCst);
		if s != 0 && now_ms().saturating_sub(s) > secs * 1000 {
			eprintln!("watchdog: a case ran for more than {secs}s ({out})");
			std::process::exit(3);
		}
	});
}

/// Dispatch macro: `main_for!(PropA, PropB, …)`.
#[macro_export]
macro_rules! main_for {
	($($prop:expr),+ $(,)?) => ({
		if std::env::args().nth(1).as_deref() == Some("--merge") { $crate::engine::merge(); }
		$crate::engine::install_panic_hook();
		let job = $crate::engine::Job::from_args();
		$( if $crate::engine::name_of(&$prop) == job.name {
			std::process::exit($crate::engine::run(&$prop, &job));
		} )+
		eprintln!("unknown check {}", job.name);
		std::process::exit(2);
	});
}

/// `--merge F…`: print the size of the union of hash files.
pub fn merge() -> ! {
	let mut all: Vec<u64> = Vec::new();
	for f in std::env::args().skip(2) {
		let raw = std::fs::read(f).expect("hash file");
		all.extend(raw.as_chunks::<8>().0.iter().map(|c| u64::from_le_bytes(*c)));
	}
	all.sort_unstable();
	all.dedup();
	println!("{}", all.len());
	std::process::exit(0);
}

pub fn name_of<P: Prop>(_: &P) -> &'static str { P::NAME }

/// Helper: boxed strategy shorthand.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> { s.boxed() }
