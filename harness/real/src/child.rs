//! What the child does.

use crate::model::*;
use fyi_msg::{Msg, Progless};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Write};
use std::num::NonZeroU32;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

/// Signal policies.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Policy { Default, TwoStrike, KeepAlive }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum End { Finish, Drop, Natural, Reset }

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Script {
	pub total: u32,
	pub title: Option<Spec>,
	/// Policies asked for, in this order, before the bar is made.
	pub policies: Vec<Policy>,
	/// Made first, on the main thread, before the others start.
	pub first: Vec<Op>,
	pub threads: Vec<Vec<Op>>,
	/// Repeat each thread's operations this often.
	pub times: u32,
	/// Do the threads' work until told to go on.
	pub endless: bool,
	pub end: End,
}

fn perform(bar: &Progless, op: &Op) -> bool {
	match op {
		Op::Inc => bar.increment(),
		Op::IncN(n) => bar.increment_n(*n),
		Op::SetDone(n) => bar.set_done(*n),
		Op::Add(s) => return bar.add(s),
		Op::Remove(s) => bar.remove(s),
		Op::Many(a, n) => for s in numbered(*a, *n) { bar.add(s); },
		Op::Fewer(a, n) => for s in numbered(*a, *n) { bar.remove(s); },
		Op::Title(t) => bar.set_title(t.as_ref().map(Spec::build)),
		Op::TitleMsg(s) => bar.set_title_msg(s),
		Op::Splines(s) if s.len() % 3 == 0 => drop(bar.clone().with_reticulating_splines(s)),
		Op::Splines(s) => bar.set_reticulating_splines(s),
		Op::Push(m) => return bar.push_msg(m.build()).is_ok(),
		Op::Reset(n) => bar.reset(NonZeroU32::new((*n).max(1)).unwrap()),
		Op::TryReset(n) => return bar.try_reset(*n).is_ok(),
		Op::Finish => { bar.finish(); },
		Op::Sleep(ms) => std::thread::sleep(Duration::from_millis(u64::from(*ms % 400))),
		Op::Summary(k, a, b) => { let _ = bar.summary(kind(*k), a.as_str(), b.as_str()); },
		Op::Convert => { let _ = Msg::from(bar.clone()); },
		Op::CloneDrop => drop(bar.clone()),
		Op::Jump(_) | Op::Resize(_) | Op::Broken(_) => {},
	}
	true
}

#[cfg(feature = "sig")]
fn choose(p: &[Policy]) -> Vec<&'static Arc<AtomicBool>> {
	p.iter().filter_map(|p| match p {
		Policy::Default => None,
		Policy::TwoStrike => Some(Progless::sigint_two_strike()),
		Policy::KeepAlive => Some(Progless::sigint_keepalive()),
	}).collect()
}
#[cfg(not(feature = "sig"))]
fn choose(_: &[Policy]) -> Vec<&'static Arc<AtomicBool>> { Vec::new() }

/// Tell the parent, on the terminal first: by then it has seen everything
/// written there before.
fn say(s: &str) {
	let _ = std::io::stderr().write_all(SYNC);
	let mut out = std::io::stdout().lock();
	let _ = out.write_all(s.as_bytes()).and_then(|()| out.write_all(b"\n")).and_then(|()| out.flush());
}

/// A sequence that terminals ignore.
pub const SYNC: &[u8] = b"\x1b]777;sync\x1b\\";

fn hear() -> bool {
	let mut s = String::new();
	std::io::stdin().lock().read_line(&mut s).is_ok_and(|n| n != 0)
}

/// Threads alive in this process. (A thread that has been joined may take a
/// moment to vanish.)
fn tasks() -> usize {
	let count = || std::fs::read_dir("/proc/self/task").map_or(1, Iterator::count);
	for _ in 0..40 {
		if count() == 1 { break; }
		std::thread::sleep(Duration::from_millis(1));
	}
	count()
}

pub fn main(script: &str) -> ! {
	let s: Script = serde_json::from_str(script).expect("script");
	let flags = choose(&s.policies);
	let mut bar = Progless::try_from(s.total).expect("total");
	if let Some(t) = &s.title { bar = bar.with_title(Some(t.build())); }
	for op in &s.first { perform(&bar, op); }
	say("start");
	let stop = Arc::new(AtomicBool::new(false));
	let handles: Vec<_> = s.threads.iter().cloned().map(|ops| {
		let b = bar.clone();
		let stop = Arc::clone(&stop);
		let times = if s.endless { u32::MAX } else { s.times.max(1) };
		std::thread::spawn(move || for _ in 0..times {
			for op in &ops { perform(&b, op); }
			if stop.load(SeqCst) { break; }
		})
	}).collect();
	if ! s.endless { for h in handles { h.join().expect("thread"); } }
	else {
		hear();
		stop.store(true, SeqCst);
		for h in handles { h.join().expect("thread"); }
	}
	say(&format!("done {}", count_of(&summary_text(&bar)).unwrap_or(u64::MAX)));
	hear();
	match s.end {
		End::Finish => { bar.finish(); },
		End::Drop => drop(bar),
		End::Natural => { bar.set_done(u32::MAX); },
		End::Reset => { bar.reset(NonZeroU32::new(7).unwrap()); bar.increment(); bar.finish(); },
	}
	if matches!(s.end, End::Natural) {
		// The ticker has yet to notice.
		for _ in 0..100 {
			if tasks() == 1 { break; }
			std::thread::sleep(Duration::from_millis(20));
		}
	}
	say(&format!("flags {} threads {}", flags.iter().map(|f| if f.load(SeqCst) { "1" } else { "0" }).collect::<String>(), tasks()));
	hear();
	std::process::exit(0);
}
