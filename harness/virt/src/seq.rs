//! Checks that tell a story and judge the outcome.

use crate::tales::{self, Mix};
use crate::judge::{Bad, Cat, Seen, judge};
use crate::story::{Op, Run, Story, run};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::{Obs, Prop};

/// Run and judge; keep what concerns this check.
pub fn told(story: &Story, cats: &[Cat], obs: &mut Obs) -> Result<(Run, Seen), String> {
	let r = run(story);
	let (bad, seen) = judge(story, &r);
	obs.label_if(r.out.preemptions != 0, "preempted");
	obs.label_if(seen.full != 0, "full frame");
	obs.label_if(seen.compact != 0, "compact frame");
	obs.label_if(seen.with_title != 0, "frame with title");
	obs.label_if(seen.with_tasks != 0, "frame with tasks");
	obs.label_if(30 < seen.most_tasks, "frame with more than 30 tasks");
	obs.label_if(200 < seen.most_tasks, "frame with more than 200 tasks");
	obs.label_if(seen.settles != 0, "settled state compared");
	obs.label_if(seen.pushes != 0, "message pushed");
	let mine: Vec<&Bad> = bad.iter().filter(|b| cats.contains(&b.cat) || matches!(b.cat, Cat::Stuck | Cat::Panic)).collect();
	match mine.first() {
		Some(b) => Err(format!("[{:?}] {}", b.cat, b.msg)),
		None => Ok((r, seen)),
	}
}

macro_rules! story_check {
	($name:ident, $rule:literal, $cats:expr, $strategy:expr, $nontrivial:expr) => (
		pub struct $name;
		impl Prop for $name {
			type Case = Story;
			const NAME: &'static str = stringify!($name);
			const RULE: &'static str = $rule;
			fn strategy(&self) -> BoxedStrategy<Story> { $strategy }
			fn check(&self, case: &Story, obs: &mut Obs) -> Result<(), String> {
				let (run, seen) = told(case, &$cats, obs)?;
				let f: fn(&Story, &Run, &Seen) -> bool = $nontrivial;
				obs.nontrivial_if(f(case, &run, &seen));
				Ok(())
			}
			fn shrink_iters(&self) -> u32 { 6_000 }
		}
	);
}

fn counts(s: &Story) -> usize { s.ops().filter(|o| matches!(o, Op::Inc | Op::IncN(1..) | Op::SetDone(_) | Op::Remove(_) | Op::Finish | Op::Reset(_) | Op::TryReset(_))).count() }

story_check!(
	C18, "random single-threaded history over all operations with the ticker running (virtual time, random context switches inside operations); count compared with the model after every summary, in every frame and at the end; non-trivial = at least two count-changing operations and a frame drawn or a settled state compared",
	[Cat::Count, Cat::Drawn, Cat::Clean, Cat::Ret, Cat::Stale],
	tales::solo(Mix { count: 10, set: 5, task: 5, title: 1, push: 1, reset: 2, finish: 1, sleep: 1, settle: 3, jump: 0, resize: 0, summary: 4, clone: 1, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 16),
	|s, _, seen| 2 <= counts(s) && 0 < seen.frames
);

story_check!(
	C19, "random histories dominated by add/remove with colliding, styled, blank, multi-line and arbitrary labels on random screens; return values and every drawn task list compared with a model set; non-trivial = a frame with tasks was drawn",
	[Cat::Tasks, Cat::Ret, Cat::Count, Cat::Drawn, Cat::Garbage, Cat::Stale],
	prop_oneof![
		15 => tales::solo(Mix { count: 2, set: 1, task: 20, title: 1, push: 0, reset: 1, finish: 1, sleep: 1, settle: 5, jump: 0, resize: 0, summary: 1, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 16),
		15 => tales::solo(Mix { count: 1, set: 1, task: 20, title: 2, push: 0, reset: 1, finish: 0, sleep: 1, settle: 5, jump: 0, resize: 1, summary: 1, clone: 0, broken: 0, many: 0, white: 0 }, (5_u32..100).boxed(), tales::size(), 20),
		2 => tales::tall(),
	].boxed(),
	|_, _, seen| 0 < seen.with_tasks
);

story_check!(
	C21, "random histories over all operations, screens and pauses; every frame drawn is parsed from a terminal emulator and each part compared with the model states it may stand for, and after each pause of 300ms with the exact current state; non-trivial = a settled state was compared and something changed before it",
	[Cat::Drawn, Cat::Percent, Cat::Title, Cat::Tasks, Cat::Clock, Cat::Form, Cat::Stale, Cat::Redraw, Cat::Garbage, Cat::Clean],
	prop_oneof![
		45 => tales::solo(Mix::EVEN, tales::total(), tales::plain_size(), 14),
		30 => tales::solo(Mix { resize: 2, .. Mix::EVEN }, tales::total(), tales::size(), 14),
		2 => tales::tall(),
	].boxed(),
	|s, _, seen| 0 < seen.settles && 2 < s.ops().count()
);

story_check!(
	C22, "random screens (0-2000 columns, 0-300 rows, none), totals, titles and tasks; each frame is fed to an emulator of that size: no wrap, no scroll, cursor back at the start, nothing on unusable screens; non-trivial = a frame was drawn on a screen under 60 columns or 10 rows, or with title or tasks",
	[Cat::Fit, Cat::Garbage, Cat::Form],
	prop_oneof![
		20 => tales::solo(Mix { count: 3, set: 3, task: 8, title: 4, push: 1, reset: 1, finish: 0, sleep: 1, settle: 6, jump: 1, resize: 3, summary: 0, clone: 0, broken: 0, many: 0, white: 1 }, tales::total(), tales::size(), 14),
		1 => tales::tall(),
	].boxed(),
	|s, _, seen| 0 < seen.frames && (s.size.is_some_and(|z| z.0 < 60 || z.1 < 10) || 0 < seen.with_tasks + seen.with_title)
);

story_check!(
	C23, "one to four threads pushing messages, updating, finishing and resetting under random preemption; now and then the terminal stops telling its size; the emulated screen and scrollback above the bar must equal the pushed messages alone, and nothing of the bar may remain or appear after an end; non-trivial = a message was pushed and either a frame was drawn or two threads pushed",
	[Cat::Push, Cat::Clean, Cat::Garbage, Cat::Fit],
	prop_oneof![
		15 => tales::solo(Mix { count: 5, set: 1, task: 3, title: 1, push: 8, reset: 1, finish: 1, sleep: 3, settle: 2, jump: 0, resize: 0, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 14),
		45 => tales::crowd(Mix { count: 6, set: 1, task: 3, title: 1, push: 8, reset: 1, finish: 1, sleep: 4, settle: 0, jump: 0, resize: 0, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 4, 6),
		3 => tales::flicker(tales::solo(Mix { count: 5, set: 1, task: 3, title: 1, push: 8, reset: 1, finish: 1, sleep: 3, settle: 2, jump: 0, resize: 0, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 14)),
		3 => tales::flicker(tales::crowd(Mix { count: 6, set: 1, task: 3, title: 1, push: 8, reset: 1, finish: 1, sleep: 4, settle: 0, jump: 0, resize: 0, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 4, 6)),
		2 => tales::tall(),
	].boxed(),
	|s, _, seen| 0 < seen.pushes && (0 < seen.frames || 1 < s.threads.len())
);

story_check!(
	C24, "one to four threads with random operations (resets and finishes over-represented), random preemption, handles dropped with and without finish; verdict from a scheduler that owns every lock, wait and clock: no deadlock, livelock or panic, prompt returns, tickers counted after finish, reset, drop and pauses; non-trivial = a finish, reset or natural end happened before the last operation",
	[Cat::Threads, Cat::Prompt],
	prop_oneof![
		2 => tales::solo(Mix { reset: 4, finish: 4, clone: 2, .. Mix::EVEN }, tales::total(), tales::size(), 12),
		3 => tales::crowd(Mix { reset: 4, finish: 4, clone: 2, settle: 0, .. Mix::EVEN }, tales::total(), tales::plain_size(), 4, 5),
	].boxed(),
	|s, _, _| s.threads.iter().any(|t| t.iter().rev().skip(1).any(|o| matches!(o, Op::Finish | Op::Reset(_) | Op::TryReset(1..) | Op::Inc | Op::IncN(_) | Op::SetDone(_))))
);

story_check!(
	C25, "random totals up to u32::MAX with done counts near 0, near the total and at every thousandth, on random widths; filled length, total length and percentage recomputed in wide arithmetic; non-trivial = a full frame was drawn for a settled state with done between 1 and total-1",
	[Cat::Fill, Cat::Percent, Cat::Drawn, Cat::Stale],
	{
		let total = prop_oneof![2 => 1_u32..300, 2 => hc::gens::edgy_u32().prop_map(|n| n.max(1)), 2 => 10_000_000_u32..].boxed();
		tales::solo(Mix { count: 3, set: 8, task: 0, title: 0, push: 0, reset: 1, finish: 0, sleep: 0, settle: 8, jump: 0, resize: 1, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, total, prop_oneof![tales::plain_size(), (50_u16..300, 3_u16..30).prop_map(Some)].boxed(), 10)
	},
	|s, _, seen| 0 < seen.full && s.ops().any(|o| matches!(o, Op::SetDone(1..) | Op::IncN(_)))
);

story_check!(
	C26, "random sequences of set_title, set_title_msg, splines and removals with styled, multi-line, blank, wide and over-long text on random screens; each drawn title compared cell by cell, with styles, to the model; non-trivial = a frame with a title was drawn after a change of title",
	[Cat::Title, Cat::Fit, Cat::Garbage, Cat::Stale],
	tales::solo(Mix { count: 2, set: 0, task: 2, title: 14, push: 1, reset: 1, finish: 1, sleep: 1, settle: 8, jump: 0, resize: 1, summary: 0, clone: 0, broken: 0, many: 0, white: 2 }, (3_u32..50).boxed(), prop_oneof![2 => tales::plain_size(), 1 => tales::size()].boxed(), 14),
	|s, _, seen| 0 < seen.with_title && s.ops().any(|o| matches!(o, Op::Title(_) | Op::TitleMsg(_) | Op::Splines(_)))
);

story_check!(
	C28, "random histories with frequent terminal size changes (including to none, tiny and back) between and during ticks, with size detection by polling and, in the other variant, by real SIGWINCH delivery; the bar must be redrawn for the new size within 300ms and never drawn for a size that was not in effect; non-trivial = a size change happened and a frame was drawn",
	[Cat::Form, Cat::Fit, Cat::Stale, Cat::Redraw, Cat::Fill, Cat::Title, Cat::Tasks, Cat::Garbage],
	prop_oneof![
		20 => tales::solo(Mix { count: 3, set: 2, task: 4, title: 2, push: 1, reset: 1, finish: 0, sleep: 3, settle: 8, jump: 0, resize: 9, summary: 0, clone: 0, broken: 0, many: 0, white: 0 }, (3_u32..5000).boxed(), tales::size(), 14),
		1 => tales::tall(),
	].boxed(),
	|s, _, seen| 0 < seen.frames && s.ops().any(|o| matches!(o, Op::Resize(_)))
);

story_check!(
	C29, "random histories with clock jumps up to years; summary text for every kind and noun compared with the model count and an independent elapsed-time renderer, finish() with the virtual clock; non-trivial = a summary or finish result was compared after some time had passed",
	[Cat::Summary, Cat::Count],
	tales::solo(Mix { count: 6, set: 3, task: 1, title: 0, push: 0, reset: 1, finish: 2, sleep: 4, settle: 0, jump: 4, resize: 0, summary: 9, clone: 0, broken: 0, many: 0, white: 0 }, tales::total(), tales::plain_size(), 14),
	|s, _, _| s.ops().any(|o| matches!(o, Op::Sleep(_) | Op::Jump(_))) && s.ops().any(|o| matches!(o, Op::Summary(..) | Op::Finish))
);

/// Nouns must be told apart and the generic message checked too: C29 also
/// covers `Msg::from(bar)`, see `misc.rs`.
pub struct C30;
impl Prop for C30 {
	type Case = Story;
	const NAME: &'static str = "C30";
	const RULE: &'static str = "random histories, one to three threads, with write faults: short and interrupted writes (everything must still be delivered in order) and broken pipe, no space, would-block and zero-length writes, terminals that vanish and come back; counts, tasks and results compared with the model, push_msg's result with what reached the terminal; non-trivial = a fault was hit";
	fn strategy(&self) -> BoxedStrategy<Story> {
		let mix = Mix { push: 6, sleep: 4, resize: 1, .. Mix::EVEN };
		let soft = (tales::solo(Mix { resize: 0, .. mix }, tales::total(), tales::plain_size(), 12), tales::soft_faults()).prop_map(|(s, faults)| Story { faults, .. s });
		let hard = (tales::solo(Mix { broken: 4, .. mix }, tales::total(), tales::size(), 14), vec(prop_oneof![6 => Just(0_u8), 2 => 1_u8..40, 2 => 250_u8..], 0..30)).prop_map(|(s, faults)| Story { faults, .. s });
		let crowd = (tales::crowd(Mix { broken: 1, settle: 0, .. mix }, tales::total(), tales::plain_size(), 3, 5), vec(prop_oneof![6 => Just(0_u8), 2 => 1_u8..40, 2 => 250_u8..], 0..30)).prop_map(|(s, faults)| Story { faults, .. s });
		prop_oneof![3 => soft, 3 => hard, 1 => crowd].prop_map(|mut s| {
			// No two alike, nor like anything else.
			for (i, o) in s.threads.iter_mut().flatten().enumerate() {
				if let Op::Push(m) = o { m.msg.insert_str(0, &format!("<{i}>")); }
			}
			s
		}).boxed()
	}
	fn check(&self, case: &Story, obs: &mut Obs) -> Result<(), String> {
		use stdshim::virt::Event;
		let soft = case.faults.iter().any(|f| (1..=250).contains(f)) && ! case.faults.iter().any(|f| 251 <= *f);
		let (run, _) = told(case, &[Cat::Ret, Cat::Count, Cat::Push, Cat::Garbage, Cat::Clean, Cat::Fit, Cat::Drawn, Cat::Tasks, Cat::Title, Cat::Threads], obs)?;
		let refused = run.out.log.iter().any(|e| matches!(e, Event::Refused { .. }));
		obs.label_if(refused, "write refused");
		obs.label_if(soft, "short/interrupted writes");
		obs.nontrivial_if(refused || soft);
		// push_msg gives the message back exactly if it did not get through
		// while running.
		for d in &run.done {
			let Op::Push(m) = &case.threads[d.thread][d.index] else { continue; };
			let crate::story::Ret::Push(got) = &d.ret else { continue; };
			let text = { let mut m = m.clone(); m.newline = true; m.text() };
			let (mut on, mut bytes, mut no) = (false, Vec::new(), false);
			for e in &run.out.log {
				match e {
					Event::Mark { tid, id, .. } if *tid == d.tid => on = *id == crate::story::mark_id(d.thread, d.index, false),
					Event::Write { tid, err: true, bytes: b, .. } if on && *tid == d.tid => bytes.extend_from_slice(b),
					Event::Refused { tid, err: true } if on && *tid == d.tid => no = true,
					_ => {},
				}
			}
			let through = bytes.windows(text.len()).any(|w| w == text.as_bytes());
			match got {
				Some(g) if *g != text => return Err(format!("push_msg gave back {g:?} instead of {text:?}")),
				Some(_) if through => return Err(format!("push_msg gave back {text:?} although it was printed")),
				Some(_) if ! no => return Err(format!("push_msg gave back {text:?} although nothing was refused")),
				None if ! through => {
					// Fine only if the bar was not running: then output is
					// best effort. A running bar clears the screen first.
					if bytes.starts_with(b"\x1b[J") { return Err(format!("push_msg reported success but only {:?} was printed", String::from_utf8_lossy(&bytes))); }
					if case.threads.len() == 1 {
						let mut model = crate::story::Model::new(case);
						for o in &case.threads[0][..d.index] { model.apply(o); }
						if model.running { return Err(format!("push_msg reported success while running but only {:?} was printed", String::from_utf8_lossy(&bytes))); }
					}
				},
				_ => {},
			}
		}
		Ok(())
	}
	fn shrink_iters(&self) -> u32 { 6_000 }
}
