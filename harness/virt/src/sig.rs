//! C27: interrupt handling. The handler is chosen once per process, so every
//! case is a process of its own, in which signals arrive at generated points
//! of a generated schedule, on whichever thread is running.

use fyi_msg::{Msg, Progless};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::vt::Term;
use hc::{Obs, Prop};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::num::NonZeroU32;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use stdshim::sync::Arc as FlagArc;
use stdshim::sync::atomic::{AtomicBool, Ordering::SeqCst};
use stdshim::virt::{self, Config, Event, Verdict};
use crate::story::{MS, fault};

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SOp {
	/// Start a bar in a slot (ending whatever is there).
	New(u8, u32),
	Inc(u8),
	/// Complete the count.
	Complete(u8),
	Add(u8, String),
	Title(u8, Option<String>),
	Push(u8, String),
	Reset(u8, u32),
	Finish(u8),
	/// Give up the handle.
	Drop(u8),
	Sleep(u32),
	/// Ask for a policy (true: keep-alive) although one is in force.
	Late(bool),
	/// Look at the flag.
	Look,
	/// Send the signal to this very thread.
	Raise,
	/// Print something of one's own.
	Print(String),
	/// Let things settle, then look at the screen.
	Settle,
	Resize(u16, u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SigCase {
	/// Policies asked for first thing (true: keep-alive).
	pub early: Vec<bool>,
	pub ops: Vec<SOp>,
	/// Done on a copy of the first bar by another thread.
	pub other: Vec<SOp>,
	pub sigints: Vec<u16>,
	pub switches: Vec<(u16, u8)>,
	/// Standard error fails like this from the start.
	pub broken: Option<u8>,
}

/// What was seen while things were settled.
#[derive(Debug, Clone)]
struct Snap { from: usize, pos: usize, active: usize, /// A bar may go on (or not) in other hands.
	lost: bool }

#[derive(Default)]
struct Notes {
	snaps: Vec<(usize, Snap)>,
	/// (log position before, log position after, value)
	looks: Vec<(usize, usize, bool)>,
	/// Log positions at which bars started and titles were set.
	titles: Vec<usize>,
	starts: Vec<usize>,
	/// Bytes written when an end returned and no other bar was running.
	ends: Vec<(usize, usize, &'static str)>,
	wrong: Vec<String>,
}

fn log_len() -> usize { virt::with_state(|s| s.log.len()).unwrap_or(0) }

/// Everything that has reached the terminal so far.
fn written() -> usize {
	let mut st: libc::stat = unsafe { std::mem::zeroed() };
	unsafe { libc::fstat(2, &mut st); }
	usize::try_from(st.st_size).unwrap_or(0)
}

type Flag = &'static FlagArc<AtomicBool>;

struct Hands { bars: [Option<Progless>; 2], active: [bool; 2], flag: Option<Flag>, shared: bool, /// A bar only the other thread has left.
	lost: bool }

fn common(bar: &Progless, op: &SOp, notes: &Arc<Mutex<Notes>>) {
	match op {
		SOp::Inc(_) => bar.increment(),
		SOp::Add(_, s) => { let _ = bar.add(s); },
		SOp::Title(_, t) => {
			bar.set_title(t.as_deref().map(|t| Msg::task(t)));
			let at = log_len();
			notes.lock().unwrap().titles.push(at);
		},
		SOp::Push(_, s) => { let _ = bar.push_msg(Msg::info(s.as_str()).with_newline(true)); },
		_ => {},
	}
}

fn step(h: &mut Hands, op: &SOp, notes: &Arc<Mutex<Notes>>) {
	let slot = |k: u8| usize::from(k % 2);
	match op {
		SOp::New(k, n) => {
			if h.shared && slot(*k) == 0 { h.lost |= h.active[0]; }
			h.active[slot(*k)] = false;
			h.bars[slot(*k)] = None;
			let at = log_len();
			notes.lock().unwrap().starts.push(at);
			h.bars[slot(*k)] = Progless::try_from((*n).max(1)).ok();
			h.active[slot(*k)] = true;
			if ! stdshim::signal::handled(libc::SIGINT) { notes.lock().unwrap().wrong.push("a run was started, but an interrupt would not be handled".to_owned()); }
		},
		SOp::Inc(k) | SOp::Add(k, _) | SOp::Title(k, _) | SOp::Push(k, _) => {
			if let Some(b) = &h.bars[slot(*k)] { common(b, op, notes); }
		},
		SOp::Complete(k) => if let Some(b) = &h.bars[slot(*k)] {
			b.set_done(u32::MAX);
			h.active[slot(*k)] = false;
		},
		SOp::Reset(k, n) => if let Some(b) = &h.bars[slot(*k)] {
			let at = log_len();
			notes.lock().unwrap().starts.push(at);
			b.reset(NonZeroU32::new((*n).max(1)).unwrap());
			h.active[slot(*k)] = true;
		},
		SOp::Finish(k) => if let Some(b) = &h.bars[slot(*k)] {
			let _ = b.finish();
			h.active[slot(*k)] = false;
			ended(h, notes, "finish");
		},
		SOp::Drop(k) => {
			let had = h.bars[slot(*k)].take().is_some();
			// (The other thread's copy keeps it going.)
			if h.shared && slot(*k) == 0 { h.lost |= h.active[0]; }
			h.active[slot(*k)] = false;
			if had && ! (h.shared && slot(*k) == 0) { ended(h, notes, "drop"); }
		},
		SOp::Sleep(ms) => stdshim::thread::sleep(Duration::from_millis(u64::from(*ms))),
		SOp::Late(keep) => if stdshim::signal::handled(libc::SIGINT) {
			let f = if *keep { Progless::sigint_keepalive() } else { Progless::sigint_two_strike() };
			if h.flag.is_some_and(|g| ! FlagArc::ptr_eq(f, g)) { notes.lock().unwrap().wrong.push("a later policy call returned another flag".to_owned()); }
			h.flag = Some(f);
		},
		SOp::Look => if let Some(f) = h.flag {
			let a = log_len();
			let v = f.load(SeqCst);
			let b = log_len();
			notes.lock().unwrap().looks.push((a, b, v));
		},
		SOp::Raise => if stdshim::signal::handled(libc::SIGINT) { stdshim::signal::deliver(libc::SIGINT); },
		SOp::Print(s) => { let _ = stdshim::io::Write::write_all(&mut stdshim::io::stderr().lock(), format!("{s}\n").as_bytes()); },
		SOp::Settle => {
			let from = log_len();
			virt::with_state(|s| s.calm = true);
			stdshim::thread::sleep(Duration::from_millis(350));
			let snap = Snap { from, pos: written(), active: h.active.iter().filter(|a| **a).count(), lost: h.lost };
			let at = log_len();
			notes.lock().unwrap().snaps.push((at, snap));
			virt::with_state(|s| s.calm = false);
		},
		SOp::Resize(w, r) => virt::resize(Some((*w, *r))),
	}
}

fn ended(h: &Hands, notes: &Arc<Mutex<Notes>>, what: &'static str) {
	// (A bar whose count was completed may still have its ticker: it has one
	// more tick to notice.)
	if ! h.lost && h.active.iter().all(|a| ! a) && h.bars.iter().filter(|b| b.is_some()).count() <= 1 {
		let (at, pos) = (log_len(), written());
		notes.lock().unwrap().ends.push((at, pos, what));
	}
}

/// Run a case in this process (whose standard error is a file).
fn run(c: &SigCase) -> Result<Vec<&'static str>, String> {
	let notes = Arc::new(Mutex::new(Notes::default()));
	let config = Config {
		switches: c.switches.clone(),
		size: Some((80, 24)),
		max_steps: 200_000,
		sigints: c.sigints.clone(),
		through: true,
		.. Config::default()
	};
	let case = c.clone();
	let n2 = Arc::clone(&notes);
	let out = virt::run(config, move || {
		if let Some(b) = case.broken { virt::with_state(|s| s.err_broken = Some(fault(251 + b % 3))); }
		let mut h = Hands { bars: [None, None], active: [false; 2], flag: None, shared: ! case.other.is_empty(), lost: false };
		for keep in &case.early {
			let f = if *keep { Progless::sigint_keepalive() } else { Progless::sigint_two_strike() };
			if h.flag.is_some_and(|g| ! FlagArc::ptr_eq(f, g)) { n2.lock().unwrap().wrong.push("a later policy call returned another flag".to_owned()); }
			h.flag = Some(f);
		}
		step(&mut h, &SOp::New(0, 1000), &n2);
		let other = h.shared.then(|| {
			let bar = h.bars[0].clone().unwrap();
			let n3 = Arc::clone(&n2);
			let ops = case.other.clone();
			stdshim::thread::spawn_harness(move || {
				for op in &ops {
					match op {
						SOp::Sleep(ms) => stdshim::thread::sleep(Duration::from_millis(u64::from(*ms))),
						SOp::Raise => if stdshim::signal::handled(libc::SIGINT) { stdshim::signal::deliver(libc::SIGINT); },
						op => common(&bar, op, &n3),
					}
				}
				drop(bar);
			})
		});
		for op in &case.ops { step(&mut h, op, &n2); }
		if let Some(o) = other { let _ = o.join(); h.shared = false; h.lost = false; }
		step(&mut h, &SOp::Settle, &n2);
		drop(h);
	});
	if std::env::var_os("VIRT_LOG").is_some() {
		let mut s = String::new();
		for e in &out.log { s.push_str(&format!("{e:?}\n")); }
		s.push_str(&format!("{:?} {:?}\n", out.verdict, out.panics));
		let _ = std::fs::write("/tmp/sig.log", s);
	}

	// Everything the terminal got.
	let mut all = Vec::new();
	let mut f = unsafe { std::fs::File::from_raw_fd(libc::dup(2)) };
	std::io::Seek::seek(&mut f, std::io::SeekFrom::Start(0)).expect("seek");
	f.read_to_end(&mut all).expect("read back");
	let mut notes = notes.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
	let notes = std::mem::take(&mut *notes);
	judge(c, &out, &notes, &all)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Policy { Default, Two, Keep }

fn judge(c: &SigCase, out: &virt::Outcome, notes: &Notes, all: &[u8]) -> Result<Vec<&'static str>, String> {
	let mut labels = Vec::new();
	if let Some(p) = out.panics.first() { return Err(format!("panicked: {p}")); }
	if let Some(w) = notes.wrong.first() { return Err(w.clone()); }
	let policy = match c.early.first() { None => Policy::Default, Some(false) => Policy::Two, Some(true) => Policy::Keep };
	labels.push(match policy { Policy::Default => "policy: default", Policy::Two => "policy: two-strike", Policy::Keep => "policy: keep-alive" });
	// Arrivals and completions, by log position.
	let mut began = Vec::new();
	let mut done = Vec::new();
	for (k, e) in out.log.iter().enumerate() {
		if let Event::Signal { sig: libc::SIGINT, clock, done: d, .. } = e {
			if *d { done.push((k, *clock)); } else { began.push((k, *clock)); }
		}
	}
	labels.push(match began.len() { 0 => "signals: 0", 1 => "signals: 1", 2 => "signals: 2", _ => "signals: 3 or more" });
	let fatal = match policy { Policy::Default => Some(1), Policy::Two => Some(2), Policy::Keep => None };
	let due = fatal.filter(|n| *n <= began.len());
	match (&out.verdict, due) {
		(Verdict::Deadlock(d), _) => return Err(format!("deadlock: {d}")),
		(Verdict::Livelock(d), _) => return Err(format!("no end: {d}")),
		(Verdict::Finished, None) => labels.push("ran to its end"),
		(Verdict::Finished, Some(n)) => return Err(format!("{policy:?} policy: {n} signal(s) did not end the process")),
		(Verdict::Exited(n), None) => return Err(format!("{policy:?} policy: {} signal(s) ended the process (status {n})", began.len())),
		(Verdict::Exited(1), Some(n)) => {
			labels.push("ended by a signal");
			// Promptly?
			let (at, clock) = began[n - 1];
			let leaps: u64 = out.log[at..].iter().map(|e| if let Event::Leap { by } = e { *by } else { 0 }).sum();
			if clock + leaps + 300 * MS < out.clock { return Err(format!("the process ended {} ms after the signal", (out.clock - clock - leaps) / MS)); }
		},
		(Verdict::Exited(n), Some(_)) => return Err(format!("the signal ended the process with status {n} instead of 1")),
	}
	// The flag.
	let first = began.first().map_or(usize::MAX, |b| b.0);
	let first_done = done.first().map_or(usize::MAX, |b| b.0);
	for (a, b, v) in &notes.looks {
		if *v && *b <= first { return Err("the flag was set before any signal".to_owned()); }
		if ! v && first_done < *a { return Err("the flag was not set by the signal".to_owned()); }
		labels.push(if *v { "flag seen set" } else { "flag seen unset" });
	}
	if c.broken.is_some() { labels.push("broken terminal"); return Ok(labels); }
	// The cursor.
	let mut term = Term::new(80, 24);
	let mut fed = 0;
	let mut looks: Vec<(usize, usize, Option<&Snap>, &str)> = notes.snaps.iter().map(|(at, s)| (*at, s.pos, Some(s), "settled")).collect();
	looks.extend(notes.ends.iter().map(|(at, pos, w)| (*at, *pos, None, *w)));
	looks.sort_by_key(|l| (l.0, l.1));
	for (at, pos, snap, what) in looks {
		term.feed(&all[fed..pos]);
		fed = pos;
		let Some(s) = snap else {
			if term.cursor_hidden { return Err(format!("the cursor is still hidden after {what} returned")); }
			labels.push("cursor visible after an end");
			continue;
		};
		// (Or threads were kept from running meanwhile.)
		if s.lost || out.log[s.from..at].iter().any(|e| matches!(e, Event::Leap { .. })) { continue; }
		let before = began.iter().filter(|b| b.0 < at).count();
		if s.active == 0 && term.cursor_hidden { return Err("the cursor is hidden although nothing is running".to_owned()); }
		// Once interrupted, it stays visible for good.
		if began.iter().any(|b| b.0 < s.from) {
			if term.cursor_hidden { return Err("the cursor is hidden although an interrupt was handled".to_owned()); }
			labels.push("cursor visible after a signal");
		}
		// (Another bar's end shows the cursor for all of them.)
		let alone = c.ops.iter().all(|o| ! matches!(o, SOp::New(..)));
		if s.active == 1 && before == 0 && alone {
			if ! term.cursor_hidden { return Err("the cursor is visible although a run is active and no signal came".to_owned()); }
			labels.push("cursor hidden while running");
		}
		let resized = c.ops.iter().any(|o| matches!(o, SOp::Resize(..)));
		if s.active != 0 && ! resized {
			let screen = term.screen();
			let shown = screen.iter().any(|l| l.contains("Warning: Early shutdown in progress."));
			if before == 0 && shown { return Err("the shutdown notice is shown although no signal came".to_owned()); }
			// (Two bars and foreign output write over each other, and a title or a new run after
			// the signal replaces the notice.)
			let alone = alone && notes.starts.len() == 1 && c.ops.iter().all(|o| ! matches!(o, SOp::Print(..)));
			let settled = began.iter().any(|b| b.0 < s.from);
			if settled && alone && ! shown && notes.titles.iter().all(|t| *t < first) {
				return Err(format!("the shutdown notice is not shown: {screen:?}"));
			}
			if shown { labels.push("notice shown"); }
		}
	}
	term.feed(&all[fed..]);
	if term.cursor_hidden { return Err("the cursor is hidden after the process ended".to_owned()); }
	Ok(labels)
}

/// Do it in a child of our own.
fn isolated(c: &SigCase) -> Result<Vec<String>, String> {
	let mut fds = [0; 2];
	assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
	let (rd, wr) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
	let pid = unsafe { libc::fork() };
	assert!(0 <= pid, "fork");
	if pid == 0 {
		unsafe {
			libc::alarm(60);
			let mem = libc::memfd_create(c"err".as_ptr(), 0);
			libc::dup2(mem, 2);
		}
		let r = hc::engine::guarded(|| run(c)).unwrap_or_else(Err);
		let txt = serde_json::to_string(&r.map(|v| v.into_iter().map(str::to_owned).collect::<Vec<_>>())).unwrap_or_default();
		let mut w = std::fs::File::from(wr);
		let _ = w.write_all(txt.as_bytes());
		unsafe { libc::_exit(0); }
	}
	drop(wr);
	let mut txt = String::new();
	let rd_fd = rd.as_raw_fd();
	std::fs::File::from(rd).read_to_string(&mut txt).expect("read result");
	let _ = rd_fd;
	let mut status = 0;
	unsafe { libc::waitpid(pid, &mut status, 0); }
	if txt.is_empty() {
		if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM { panic!("a case did not come back"); }
		return Err(format!("the process died (status {status:#x})"));
	}
	serde_json::from_str(&txt).expect("result")
}

fn word() -> BoxedStrategy<String> { hc::gens::word() }

fn op() -> BoxedStrategy<SOp> {
	let k = prop_oneof![4 => Just(0_u8), 1 => Just(1_u8)];
	prop_oneof![
		1 => (k.clone(), 50_u32..2000).prop_map(|(k, n)| SOp::New(k, n)),
		4 => k.clone().prop_map(SOp::Inc),
		1 => k.clone().prop_map(SOp::Complete),
		2 => (k.clone(), word()).prop_map(|(k, s)| SOp::Add(k, s)),
		1 => (k.clone(), hc::proptest::option::of(word())).prop_map(|(k, s)| SOp::Title(k, s)),
		3 => (k.clone(), word()).prop_map(|(k, s)| SOp::Push(k, s)),
		1 => (k.clone(), 50_u32..2000).prop_map(|(k, n)| SOp::Reset(k, n)),
		2 => k.clone().prop_map(SOp::Finish),
		1 => k.prop_map(SOp::Drop),
		5 => (0_u32..250).prop_map(SOp::Sleep),
		1 => any::<bool>().prop_map(SOp::Late),
		2 => Just(SOp::Look),
		1 => Just(SOp::Raise),
		1 => word().prop_map(SOp::Print),
		3 => Just(SOp::Settle),
		1 => (41_u16..200, 5_u16..60).prop_map(|(w, r)| SOp::Resize(w, r)),
	].boxed()
}

fn side() -> BoxedStrategy<SOp> {
	prop_oneof![
		3 => Just(SOp::Inc(0)),
		2 => word().prop_map(|s| SOp::Add(0, s)),
		1 => hc::proptest::option::of(word()).prop_map(|s| SOp::Title(0, s)),
		3 => word().prop_map(|s| SOp::Push(0, s)),
		2 => (0_u32..250).prop_map(SOp::Sleep),
		1 => Just(SOp::Raise),
	].boxed()
}

fn cases(broken: BoxedStrategy<Option<u8>>) -> BoxedStrategy<SigCase> {
	(
		vec(any::<bool>(), 0..3),
		vec(op(), 0..12),
		prop_oneof![2 => Just(Vec::new()), 1 => vec(side(), 1..6)],
		prop_oneof![1 => Just(Vec::new()), 5 => vec(prop_oneof![4 => 0_u16..40, 4 => 0_u16..200, 1 => 0_u16..800], 1..4)],
		// (Some like it hot.)
		prop_oneof![3 => crate::tales::switches(false), 1 => vec((0_u16..6, any::<u8>()), 4..40)],
		broken,
	).prop_map(|(early, ops, other, sigints, switches, broken)| SigCase { early, ops, other, sigints, switches, broken }).boxed()
}

macro_rules! sig_prop {
	($ty:ident, $broken:expr, $rule:literal) => (
		pub struct $ty;
		impl Prop for $ty {
			type Case = SigCase;
			const NAME: &'static str = stringify!($ty);
			const RULE: &'static str = $rule;
			fn strategy(&self) -> BoxedStrategy<SigCase> { cases($broken) }
			fn check(&self, c: &SigCase, obs: &mut Obs) -> Result<(), String> {
				let labels = isolated(c)?;
				obs.nontrivial_if(labels.iter().any(|l| l.starts_with("signals: ") && l != "signals: 0"));
				let mut labels: Vec<&'static str> = labels.into_iter().map(|l| &*Box::leak(l.into_boxed_str())).collect();
				labels.sort_unstable();
				labels.dedup();
				obs.labels.extend(labels);
				Ok(())
			}
			fn shrink_iters(&self) -> u32 { 4000 }
		}
	);
}
sig_prop!(C27, Just(None).boxed(), "a process per case: a generated history of one or two bars (created, reset, completed, finished, dropped), a second thread, policies asked for early and late, and up to three SIGINTs delivered at generated scheduling points on whichever thread is running (holding whatever it holds), under generated schedules; exit status, flag, cursor, notice and liveness judged; non-trivial = a signal was delivered");
sig_prop!(C30sig, (0_u8..3).prop_map(Some).boxed(), "the same histories with the terminal failing all along: nothing may panic or hang, and the exit status must be the policy's; non-trivial = a signal was delivered");
