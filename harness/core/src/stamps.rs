//! C05: timestamps, with the wall clock and the system zone under control.

use crate::model::*;
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::{Obs, Prop};
use serde::{Deserialize, Serialize};
use std::ffi::{CStr, CString, c_char, c_int};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicI64, Ordering};

/// Fake realtime clock in nanoseconds (negative: use the real one).
static CLOCK: AtomicI64 = AtomicI64::new(-1);

/// The standard library's wall clock ends up here.
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
	let fake = CLOCK.load(Ordering::SeqCst);
	if (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) && 0 <= fake {
		unsafe {
			(*ts).tv_sec = fake / 1_000_000_000;
			(*ts).tv_nsec = fake % 1_000_000_000;
		}
		return 0;
	}
	unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int }
}

/// Zone file standing in for `/etc/localtime`.
fn zone() -> &'static CString {
	static Z: OnceLock<CString> = OnceLock::new();
	Z.get_or_init(|| CString::new(std::env::var("FAKE_LOCALTIME").unwrap_or_else(|_| "/etc/localtime".to_owned())).unwrap())
}

unsafe fn redirected(path: *const c_char) -> *const c_char {
	if unsafe { CStr::from_ptr(path) } == c"/etc/localtime" { zone().as_ptr() } else { path }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
	unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, redirected(path), flags, mode) as c_int }
}

unsafe extern "C" { fn tzset(); }

/// The reference: the C library's idea of local time in that zone.
fn expected(secs: i64) -> String {
	static INIT: OnceLock<()> = OnceLock::new();
	INIT.get_or_init(|| {
		let tz = format!(":{}", zone().to_str().unwrap());
		// Single-threaded apart from the watchdog, which reads no environment.
		unsafe { std::env::set_var("TZ", tz); tzset(); }
	});
	let mut tm: libc::tm = unsafe { std::mem::zeroed() };
	let t: libc::time_t = secs;
	unsafe { libc::localtime_r(&t, &mut tm); }
	format!(
		"\x1b[2m[\x1b[0;34m{:04}-{:02}-{:02} {:02}:{:02}:{:02}\x1b[0;2m]\x1b[0m ",
		tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
	)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
	Op(Op, bool),
	/// Set the clock: seconds, nanoseconds.
	Clock(i64, u32),
	/// Let some seconds pass.
	Pass(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
	pub start: (i64, u32),
	pub ctor: Ctor,
	pub steps: Vec<Step>,
}

/// 2001-01-02 to 2098-12-30 (the supported range less a margin for offsets).
const LO: i64 = 978_393_600;
const HI: i64 = 4_070_736_000;

fn when() -> BoxedStrategy<(i64, u32)> {
	let secs = prop_oneof![
		4 => LO..HI,
		// The years zone rules are tabulated for.
		4 => LO..2_145_916_800_i64,
		// Around midnights, month and year ends.
		3 => ((LO / 86_400)..(HI / 86_400), -3_i64..3).prop_map(|(d, s)| d * 86_400 + s),
		2 => ((LO / 86_400)..(HI / 86_400), 0_i64..97, -2_i64..3).prop_map(|(d, q, s)| d * 86_400 + q * 900 + s),
	].prop_map(|s| s.clamp(LO, HI));
	(secs, prop_oneof![Just(0), Just(999_999_999), 0_u32..1_000_000_000]).boxed()
}

pub struct C05;
impl Prop for C05 {
	type Case = Case;
	const NAME: &'static str = "C05";
	const RULE: &'static str = "random build history with the wall clock set (2001-2098, biased to day/quarter-hour boundaries) and moved between edits, one system zone per shard out of all installed ones; expected text from the C library's localtime_r; non-trivial = a timestamp was enabled and another edit or clock move followed or preceded it";
	fn strategy(&self) -> BoxedStrategy<Case> {
		let step = prop_oneof![
			4 => any::<bool>().prop_map(|b| Step::Op(Op::Timestamp(true), b)),
			1 => any::<bool>().prop_map(|b| Step::Op(Op::Timestamp(false), b)),
			5 => (op(), any::<bool>()).prop_map(|(o, b)| Step::Op(o, b)),
			2 => when().prop_map(|(s, n)| Step::Clock(s, n)),
			2 => prop_oneof![0_u32..5, 0_u32..100_000].prop_map(Step::Pass),
		];
		(when(), ctor(), vec(step, 1..10)).prop_map(|(start, ctor, steps)| Case { start, ctor, steps }).boxed()
	}
	fn check(&self, case: &Case, obs: &mut Obs) -> Result<(), String> {
		let set = |s: i64, n: u32| CLOCK.store(s * 1_000_000_000 + i64::from(n), Ordering::SeqCst);
		let now = || CLOCK.load(Ordering::SeqCst) / 1_000_000_000;
		set(case.start.0, case.start.1);
		let r = (|| {
			let (mut msg, mut model) = case.ctor.build();
			agree(&msg, &model, "after construction")?;
			for (i, s) in case.steps.iter().enumerate() {
				match s {
					Step::Clock(s, n) => set(*s, *n),
					Step::Pass(n) => set((now() + i64::from(*n)).min(HI), 5),
					Step::Op(op, b) => {
						let was = model.ts.clone();
						op.apply(&mut msg, &mut model, *b).map_err(|e| format!("step {i} {op:?}: {e}"))?;
						if matches!(op, Op::Timestamp(true)) {
							let want = expected(now());
							if model.ts != want { return Err(format!("step {i}: at unix time {} in {:?} timestamp is {:?}, expected {want:?}", now(), zone(), model.ts)); }
							obs.nontrivial_if(1 < case.steps.len());
							obs.label_if(! was.is_empty(), if was == want { "refreshed, same second" } else { "refreshed, new time" });
						}
						agree(&msg, &model, &format!("after step {i} {op:?}"))?;
					},
				}
			}
			Ok(())
		})();
		CLOCK.store(-1, Ordering::SeqCst);
		r
	}
}
