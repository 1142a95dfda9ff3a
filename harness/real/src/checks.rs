//! What is asked of real bars. Everything that depends on how soon something
//! happens is waited for with a lot of patience, and only counts as wrong when
//! it happens twice.

use crate::child::{End, Policy, Script};
use crate::frames::{Bad, Frame, compare, geometry};
use crate::model::*;
use crate::parent::{Fail, Session};
use crate::tales::{self, Mix};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::vt::Term;
use hc::{Obs, Prop};
use serde::{Deserialize, Serialize};

/// Threads do as they please: give a replayed failure several chances.
fn rounds() -> usize { if std::env::args().any(|a| a == "--replay") { 25 } else { 1 } }

fn patiently(f: impl FnMut() -> Result<(), Fail>) -> Result<(), String> {
	let res = twice(f);
	if res.is_err() { crate::parent::HURRY.store(true, std::sync::atomic::Ordering::Relaxed); }
	res
}

fn twice(mut f: impl FnMut() -> Result<(), Fail>) -> Result<(), String> {
	for _ in 0..rounds() {
		match f() {
			Ok(()) => {},
			Err(Fail::Sure(e)) => return Err(e),
			Err(Fail::Late(_)) => match f() {
				Ok(()) => {},
				Err(Fail::Sure(e) | Fail::Late(e)) => return Err(e),
			},
		}
	}
	Ok(())
}

fn spec(s: Spec) -> Spec {
	// (Styles left open would go on into the bar.)
	let mut s = s;
	s.suffix.push_str("\x1b[0m\x1b]8;;\x1b\\");
	s
}

fn tame(op: Op) -> Op {
	match op {
		Op::Push(s) => Op::Push(spec(s)),
		Op::Sleep(n) => Op::Sleep(n % 130),
		op => op,
	}
}

fn first_bad(b: Vec<Bad>) -> Result<(), String> { b.into_iter().next().map_or(Ok(()), |b| Err(format!("[{:?}] {}", b.cat, b.msg))) }

/// Does the screen show this state?
fn shows(s: &Session, m: &Model) -> Result<(), String> {
	if ! m.running { return blank(s); }
	let (t, f) = s.live();
	let wide = 10 < s.size.0 && 1 < s.size.1;
	if wide && f == Frame::Blank { return Err(format!("[Stale] the bar is not drawn on a {:?} terminal for {m:?}", s.size)); }
	first_bad(compare(&t, &f, &[m], s.size, None))
}

fn blank(s: &Session) -> Result<(), String> {
	let (t, _) = s.live();
	if t.screen().iter().all(String::is_empty) && t.col == 0 { Ok(()) }
	else { Err(format!("[Clean] the run is over but the screen shows {:?}", t.screen())) }
}

/// Everything above the live area.
fn above(t: &Term) -> Vec<String> {
	t.scrollback.iter().chain(&t.grid[..t.row]).map(|r| Term::line(r)).collect()
}

fn expect_lines(size: (u16, u16), msgs: &[String]) -> Vec<String> {
	let mut t = Term::new(size.0.into(), size.1.into());
	for m in msgs { t.feed(m.as_bytes()); }
	above(&t)
}

fn pushed(op: &Op) -> Option<String> {
	if let Op::Push(m) = op { let mut m = m.clone(); m.newline = true; Some(m.text()) } else { None }
}

fn done_line(s: &mut Session, want: Option<u64>) -> Result<(), Fail> {
	let l = s.line()?;
	let Some(n) = l.strip_prefix("done ").and_then(|n| n.parse::<u64>().ok()) else { return Err(Fail::Sure(format!("the program said {l:?}"))); };
	match want {
		Some(w) if n != w => Err(Fail::Sure(format!("[Count] the count is {n}, expected {w}"))),
		_ => Ok(()),
	}
}

fn expect(s: &mut Session, want: &str) -> Result<(), Fail> {
	let l = s.line()?;
	if l == want { Ok(()) } else { Err(Fail::Sure(format!("the program said {l:?} instead of {want:?}"))) }
}

/// Let it end in the agreed way and see that nothing is left.
fn wrap_up(s: &mut Session) -> Result<(), Fail> {
	s.go();
	let l = s.line()?;
	if ! l.starts_with("flags ") || ! l.contains(" threads ") { return Err(Fail::Sure(format!("the program said {l:?}"))); }
	if ! l.ends_with(" threads 1") { return Err(Fail::Late(format!("[Threads] threads are alive after the end ({:?}): {l:?}", s.script.end))); }
	// What has been written by now is all there is (except that the ticker
	// has a tick to notice that the count is complete).
	if s.script.end != End::Natural {
		over(s).map_err(Fail::Sure)?;
		let n = s.raw.len();
		s.linger(130);
		if s.raw.len() != n { return Err(Fail::Sure(format!("[Clean] drawn after the end: {:?}", String::from_utf8_lossy(&s.raw[n..])))); }
	}
	s.until(over)?;
	s.go();
	let st = s.wait()?;
	if st != 0 { return Err(Fail::Sure(format!("the program ended with status {st}"))); }
	Ok(())
}

/// The run has ended. (Giving up the last handle leaves the bar where it is.)
fn over(s: &Session) -> Result<(), String> {
	if s.script.end != End::Drop { blank(s)?; }
	if s.term.cursor_hidden { return Err("[Clean] the cursor is still hidden after the end".to_owned()); }
	Ok(())
}

fn end() -> BoxedStrategy<End> { prop_oneof![Just(End::Finish), Just(End::Drop), Just(End::Natural), Just(End::Reset)].boxed() }

fn script(total: u32, first: Vec<Op>, end: End) -> Script {
	Script { total, title: None, policies: Vec::new(), first, threads: Vec::new(), times: 1, endless: false, end }
}

fn some_size() -> BoxedStrategy<(u16, u16)> {
	prop_oneof![
		6 => (41_u16..140, 4_u16..40),
		1 => (12_u16..42, 2_u16..20),
		1 => (200_u16..300, 2_u16..60),
	].boxed()
}

// -------------------------------------------------------------------- R21

/// One thread's history; the screen must come to show how it ended.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Solo { pub script: Script, pub size: (u16, u16) }

const MIX: Mix = Mix { count: 6, set: 2, task: 7, title: 3, push: 2, reset: 1, finish: 0, sleep: 2, settle: 0, jump: 0, resize: 0, summary: 1, clone: 1, broken: 0, many: 1, white: 1 };

pub struct R21;
impl Prop for R21 {
	type Case = Solo;
	const NAME: &'static str = "R21";
	const RULE: &'static str = "a real process with a real ticker on a pseudo-terminal performs a random history; the screen must come to show exactly the final state, the messages pushed above it, and nothing but these after the end; non-trivial = the run was still active at the end of the history";
	fn strategy(&self) -> BoxedStrategy<Solo> {
		let total = prop_oneof![3 => 5_u32..60, 2 => 60_u32..100_000, 1 => hc::gens::edgy_u32().prop_map(|n| n.max(3))];
		total.prop_flat_map(|t| (Just(t), hc::proptest::option::weighted(0.4, tales::spec(1)), vec(tales::op(MIX, t).prop_map(tame), 1..14), end(), some_size()))
			.prop_map(|(t, title, ops, end, size)| {
				let mut s = script(t, ops, end);
				s.title = title;
				Solo { script: s, size }
			}).boxed()
	}
	fn check(&self, c: &Solo, obs: &mut Obs) -> Result<(), String> {
		let mut m = Model::new(&Story { total: c.script.total, title: c.script.title.clone(), size: None, threads: Vec::new(), switches: Vec::new(), faults: Vec::new(), finish: false, settle: false });
		for op in &c.script.first { m.apply(op); }
		obs.nontrivial_if(m.running);
		obs.label_if(c.size.0 < 40, "narrow");
		obs.label_if(! m.tasks.is_empty(), "tasks");
		obs.label_if(m.title.is_some(), "title");
		let msgs: Vec<String> = c.script.first.iter().filter_map(pushed).collect();
		obs.label_if(! msgs.is_empty(), "messages pushed");
		let want = expect_lines(c.size, &msgs);
		patiently(|| {
			let mut s = Session::start(&c.script, c.size);
			expect(&mut s, "start")?;
			done_line(&mut s, Some(m.done))?;
			s.until(|s| shows(s, &m))?;
			let got = above(&s.term);
			if got != want { return Err(Fail::Sure(format!("[Push] above the bar the terminal shows {got:?}, pushed were {want:?}"))); }
			wrap_up(&mut s)?;
			let got = above(&s.term);
			if got != want { return Err(Fail::Sure(format!("[Push] at the end the terminal shows {got:?}, pushed were {want:?}"))); }
			Ok(())
		})
	}
	fn shrink_iters(&self) -> u32 { 60 }
}

// -------------------------------------------------------------------- R23

/// Threads with labels and messages of their own.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Crowd { pub script: Script, pub size: (u16, u16) }

fn own_op() -> BoxedStrategy<Op> {
	prop_oneof![
		4 => Just(Op::Inc),
		2 => (0_u32..5).prop_map(Op::IncN),
		3 => (0_u8..4).prop_map(|n| Op::Add(n.to_string())),
		3 => (0_u8..4).prop_map(|n| Op::Remove(n.to_string())),
		3 => Just(Op::Push(Spec::default())),
		1 => Just(Op::Summary(0, "a".to_owned(), "b".to_owned())),
		1 => Just(Op::CloneDrop),
		1 => (0_u32..4).prop_map(Op::Sleep),
	].boxed()
}

/// Make labels and messages the thread's own.
fn owned(op: Op, thread: usize, index: usize) -> Op {
	match op {
		Op::Add(s) => Op::Add(format!("t{thread} {s}")),
		Op::Remove(s) => Op::Remove(format!("t{thread} {s}")),
		Op::Push(_) => Op::Push(Spec { msg: format!("Message {index} of thread {thread}{}", ".".repeat((thread * 17 + index * 5) % 90)), .. Spec::default() }),
		op => op,
	}
}

pub struct R23;
impl Prop for R23 {
	type Case = Crowd;
	const NAME: &'static str = "R23";
	const RULE: &'static str = "a real process with several truly parallel threads counting, listing their own tasks and pushing their own messages again and again; nothing may be lost: the count is the sum, the screen shows the union, every message is there once, complete, and in its thread's order; non-trivial = at least two threads change the state";
	fn strategy(&self) -> BoxedStrategy<Crowd> {
		(vec(vec(own_op(), 1..9), 2..7), prop_oneof![2 => 1_u32..4, 2 => 4_u32..40, 1 => 40_u32..150], end(), (50_u16..120, 12_u16..40)).prop_map(|(threads, times, end, size)| {
			let mut s = script(u32::MAX - 5, Vec::new(), end);
			s.threads = threads.into_iter().enumerate().map(|(t, ops)| ops.into_iter().enumerate().map(|(i, op)| owned(op, t, i)).collect()).collect();
			s.times = times;
			Crowd { script: s, size }
		}).boxed()
	}
	fn check(&self, c: &Crowd, obs: &mut Obs) -> Result<(), String> {
		let mut all = Model { running: true, total: u64::from(c.script.total), .. Model::default() };
		let mut lines: Vec<Vec<String>> = Vec::new();
		for t in &c.script.threads {
			let mut m = Model { running: true, total: u64::from(c.script.total), .. Model::default() };
			let mut mine = Vec::new();
			for _ in 0..c.script.times.max(1) {
				for op in t {
					m.apply(op);
					mine.extend(pushed(op));
				}
			}
			all.done += m.done;
			all.tasks.extend(m.tasks);
			lines.push(expect_lines(c.size, &mine));
		}
		obs.nontrivial_if(2 <= c.script.threads.iter().filter(|t| t.iter().any(|o| ! matches!(o, Op::Sleep(_) | Op::Summary(..) | Op::CloneDrop))).count());
		obs.label_if(lines.iter().filter(|l| ! l.is_empty()).count() > 1, "messages from several threads");
		patiently(|| {
			let mut s = Session::start(&c.script, c.size);
			expect(&mut s, "start")?;
			done_line(&mut s, Some(all.done))?;
			s.until(|s| shows(s, &all))?;
			wrap_up(&mut s)?;
			orderly(&above(&s.term), &lines).map_err(Fail::Sure)
		})
	}
	fn shrink_iters(&self) -> u32 { 60 }
}

/// Each thread's lines, in its order, and no others. (A message that takes
/// several lines has them in a row.)
fn orderly(got: &[String], lines: &[Vec<String>]) -> Result<(), String> {
	let mut at: Vec<usize> = vec![0; lines.len()];
	let mut k = 0;
	while k < got.len() {
		let Some(t) = (0..lines.len()).find(|t| lines[*t].get(at[*t]) == Some(&got[k])) else {
			let next: Vec<Option<&String>> = lines.iter().zip(&at).map(|(l, a)| l.get(*a)).collect();
			return Err(format!("[Push] line {k} of the terminal is {:?}, next to come were {next:?}", got[k]));
		};
		at[t] += 1;
		k += 1;
		while lines[t].get(at[t]).is_some_and(|l| ! l.starts_with("Message ")) {
			if got.get(k) != lines[t].get(at[t]) { return Err(format!("[Push] line {k} of the terminal is {:?}, expected the rest of the message: {:?}", got.get(k), lines[t][at[t]])); }
			at[t] += 1;
			k += 1;
		}
	}
	match (0..lines.len()).find(|t| at[*t] != lines[*t].len()) {
		Some(t) => Err(format!("[Push] thread {t}'s message is missing: {:?}", lines[t][at[t]])),
		None => Ok(()),
	}
}

// -------------------------------------------------------------------- R24

const WILD: Mix = Mix { count: 4, set: 2, task: 6, title: 2, push: 2, reset: 3, finish: 3, sleep: 1, settle: 0, jump: 0, resize: 0, summary: 1, clone: 1, broken: 0, many: 0, white: 0 };

pub struct R24;
impl Prop for R24 {
	type Case = Crowd;
	const NAME: &'static str = "R24";
	const RULE: &'static str = "a real process with several truly parallel threads doing anything at all to one bar, resets and finishes included, again and again; everything must return, leave a proper frame (or none) on the screen, and no thread behind; non-trivial = at least two threads, of which one ends or restarts the run";
	fn strategy(&self) -> BoxedStrategy<Crowd> {
		(2_u32..40).prop_flat_map(|total| (Just(total), vec(vec(tales::op(WILD, total).prop_map(tame), 1..9), 2..6), prop_oneof![2 => 1_u32..4, 2 => 4_u32..25], end(), some_size())).prop_map(|(total, threads, times, end, size)| {
			let mut s = script(total, Vec::new(), end);
			s.threads = threads.into_iter().map(|t| t.into_iter().map(|o| match o { Op::Sleep(n) => Op::Sleep(n % 8), o => o }).collect()).collect();
			// (Each may take a tick.)
			let slow = s.threads.iter().flatten().filter(|o| matches!(o, Op::Finish | Op::Reset(_) | Op::TryReset(_))).count() as u32;
			s.times = times.min(1 + 24 / (slow + 1));
			Crowd { script: s, size }
		}).boxed()
	}
	fn check(&self, c: &Crowd, obs: &mut Obs) -> Result<(), String> {
		obs.nontrivial_if(c.script.threads.iter().flatten().any(|o| matches!(o, Op::Finish | Op::Reset(_) | Op::TryReset(_))));
		patiently(|| {
			let mut s = Session::start(&c.script, c.size);
			expect(&mut s, "start")?;
			done_line(&mut s, None)?;
			s.linger(130);
			s.until(|s| {
				let (t, f) = s.live();
				first_bad(geometry(&t, &f, s.size))
			})?;
			wrap_up(&mut s)
		})
	}
	fn shrink_iters(&self) -> u32 { 60 }
}

// -------------------------------------------------------------------- R28

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Resizing { pub script: Script, pub size: (u16, u16), pub to: Vec<(u16, u16)> }

pub struct R28;
impl Prop for R28 {
	type Case = Resizing;
	const NAME: &'static str = "R28";
	const RULE: &'static str = "a real process on a pseudo-terminal that is resized again and again (the kernel tells it by SIGWINCH); each time the screen must come to show the full frame for the new size; non-trivial = at least two different sizes";
	fn strategy(&self) -> BoxedStrategy<Resizing> {
		let size = || prop_oneof![5 => (40_u16..140, 3_u16..40), 1 => (11_u16..40, 2_u16..20), 1 => (2_u16..300, 1_u16..300)];
		let op = prop_oneof![3 => tales::label().prop_map(Op::Add), 2 => tales::spec(0).prop_map(|s| Op::Title(Some(s))), 2 => (1_u32..50).prop_map(Op::IncN)];
		(vec(op, 1..8), size(), vec(size(), 1..4), end(), any::<bool>()).prop_map(|(ops, size, to, end, busy)| {
			let mut s = script(1_000_000, ops, end);
			if busy {
				s.threads = vec![vec![Op::Inc, Op::Sleep(1)]];
				s.times = 400;
			}
			Resizing { script: s, size, to }
		}).boxed()
	}
	fn check(&self, c: &Resizing, obs: &mut Obs) -> Result<(), String> {
		let mut m = Model { running: true, total: u64::from(c.script.total), .. Model::default() };
		for op in &c.script.first { m.apply(op); }
		let busy = ! c.script.threads.is_empty();
		if busy { m.done += u64::from(c.script.times); }
		obs.nontrivial_if(c.to.iter().any(|t| *t != c.size));
		obs.label_if(busy, "resized while busy");
		patiently(|| {
			let mut s = Session::start(&c.script, c.size);
			expect(&mut s, "start")?;
			if ! busy {
				done_line(&mut s, Some(m.done))?;
				s.until(|s| shows(s, &m))?;
			}
			for (k, to) in c.to.iter().enumerate() {
				s.resize(*to);
				if busy && k + 1 < c.to.len() { s.pump(); }
				else {
					if busy { done_line(&mut s, Some(m.done))?; }
					s.until(|s| shows(s, &m).map_err(|e| format!("after a resize to {to:?}: {e}")))?;
				}
			}
			wrap_up(&mut s)
		})
	}
	fn shrink_iters(&self) -> u32 { 40 }
}

// -------------------------------------------------------------------- R27

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum When { Start, Frame, After(u8) }

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Signals { pub script: Script, pub when: When, pub sent: u8 }

pub struct R27;
impl Prop for R27 {
	type Case = Signals;
	const NAME: &'static str = "R27";
	const RULE: &'static str = "a real process, idle or with threads pushing and counting all the time, is sent real SIGINTs under generated policies; status, flags, notice and cursor are judged; non-trivial = a signal was sent";
	fn strategy(&self) -> BoxedStrategy<Signals> {
		let op = prop_oneof![
			3 => Just(Op::Inc),
			2 => (0_u8..4).prop_map(|n| Op::Add(n.to_string())),
			2 => (0_u8..4).prop_map(|n| Op::Remove(n.to_string())),
			2 => Just(Op::Push(Spec::default())),
			2 => (0_u32..30).prop_map(Op::Sleep),
		];
		(
			vec(prop_oneof![Just(Policy::Default), Just(Policy::TwoStrike), Just(Policy::KeepAlive)], 0..3),
			prop_oneof![1 => Just(Vec::new()), 3 => vec(vec(op, 1..6), 1..4)],
			prop_oneof![2 => Just(When::Start), 2 => Just(When::Frame), 3 => (0_u8..200).prop_map(When::After)],
			0_u8..4,
			end(),
		).prop_map(|(policies, threads, when, sent, end)| {
			let mut s = script(u32::MAX, Vec::new(), end);
			s.policies = policies;
			s.threads = threads.into_iter().enumerate().map(|(t, ops)| {
				// (Not too much of it.)
				ops.into_iter().chain([Op::Sleep(1)]).enumerate().map(|(i, op)| owned(op, t, i)).collect()
			}).collect();
			s.endless = true;
			Signals { script: s, when, sent }
		}).boxed()
	}
	fn check(&self, c: &Signals, obs: &mut Obs) -> Result<(), String> {
		let chosen = c.script.policies.iter().find(|p| **p != Policy::Default).copied().unwrap_or(Policy::Default);
		let fatal = match chosen { Policy::Default => Some(1), Policy::TwoStrike => Some(2), Policy::KeepAlive => None };
		obs.nontrivial_if(c.sent != 0);
		obs.label(match chosen { Policy::Default => "policy: default", Policy::TwoStrike => "policy: two-strike", Policy::KeepAlive => "policy: keep-alive" });
		obs.label_if(! c.script.threads.is_empty(), "busy");
		patiently(|| {
			let mut s = Session::start(&c.script, (100, 30));
			expect(&mut s, "start")?;
			match c.when {
				When::Start => {},
				When::Frame => s.until(|s| {
					if ! matches!(s.live().1, Frame::Full { .. }) { Err("[Stale] the bar is not drawn".to_owned()) }
					else if ! s.term.cursor_hidden { Err("the cursor is visible although the run is active".to_owned()) }
					else { Ok(()) }
				})?,
				When::After(ms) => s.linger(ms.into()),
			}
			for k in 1..=c.sent {
				s.signal(libc::SIGINT);
				if Some(k) == fatal {
					let st = s.wait()?;
					if st != 1 { return Err(Fail::Sure(format!("{chosen:?} policy: signal {k} ended the process with status {st} instead of 1"))); }
					if s.term.cursor_hidden { return Err(Fail::Sure("the cursor is hidden after the process ended".to_owned())); }
					return Ok(());
				}
				// Its effect is the notice (which stays).
				s.until(|s| if s.term.screen().iter().any(|l| l.contains("Warning: Early shutdown in progress.")) { Ok(()) } else { Err(format!("{chosen:?} policy: the notice does not appear")) })?;
				s.until(|s| if s.term.cursor_hidden { Err("the cursor is still hidden after a handled interrupt".to_owned()) } else { Ok(()) })?;
				if 1 < k { s.linger(150); }
				if ! s.alive() { return Err(Fail::Sure(format!("{chosen:?} policy: signal {k} ended the process"))); }
			}
			// On with it.
			s.go();
			done_line(&mut s, None)?;
			s.go();
			let n = c.script.policies.iter().filter(|p| **p != Policy::Default).count();
			let want = format!("flags {} threads 1", if c.sent == 0 { "0" } else { "1" }.repeat(n));
			expect(&mut s, &want)?;
			s.until(over)?;
			s.go();
			let st = s.wait()?;
			if st != 0 { return Err(Fail::Sure(format!("the program ended with status {st}"))); }
			Ok(())
		})
	}
	fn shrink_iters(&self) -> u32 { 40 }
}
