//! Judging a story: what ended up on the terminal and what operations
//! returned, against the model.

pub use crate::frames::*;
use crate::story::*;
use hc::num;
use hc::vt::Term;
use stdshim::virt::{Event, Verdict};

/// Numbers about what was judged.
#[derive(Debug, Default)]
pub struct Seen {
	pub frames: usize,
	pub full: usize,
	pub compact: usize,
	pub with_title: usize,
	pub with_tasks: usize,
	/// Most tasks in one frame.
	pub most_tasks: usize,
	pub settles: usize,
	pub pushes: usize,
	pub torn: usize,
	/// The screen and the last frame when everything had settled.
	pub settled: Option<(Term, Option<(Term, Frame)>)>,
}

struct Region { tid: usize, acquire: u64, release: u64, started: usize, ended: usize, bytes: Vec<u8>, sizes: Vec<Option<(u16, u16)>>, resized: bool, wiped: bool, created: bool, op: Option<(usize, usize)> }

fn emu_size(s: Option<(u16, u16)>) -> (usize, usize) {
	match s { Some((c, r)) if 2 <= c && 1 <= r => (c.into(), r.into()), _ => (80, 24) }
}

const CLS: &[u8] = b"\x1b[J";

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
	if needle.is_empty() { return Some(0); }
	hay.windows(needle.len()).position(|w| w == needle)
}

/// Judge a story. Hard faults switch off everything about the screen.
#[expect(clippy::too_many_lines, reason = "One pass over the log.")]
pub fn judge(story: &Story, run: &Run) -> (Vec<Bad>, Seen) {
	let mut bad: Vec<Bad> = Vec::new();
	let mut seen = Seen::default();
	macro_rules! bad { ($cat:ident, $($t:tt)+) => (bad.push(Bad { cat: Cat::$cat, msg: format!($($t)+) })) }

	match &run.out.verdict {
		Verdict::Finished => {},
		Verdict::Exited(n) => bad!(Stuck, "the library ended the process with status {n}"),
		Verdict::Deadlock(d) => bad!(Stuck, "deadlock: {d}"),
		Verdict::Livelock(d) => bad!(Stuck, "no progress: {d}"),
	}
	for p in &run.out.panics { bad!(Panic, "panicked: {p}"); }
	if ! bad.is_empty() { return (bad, seen); }

	let single = story.threads.len() <= 1;
	let ops: Vec<&Op> = story.threads.first().map(|t| t.iter().collect()).unwrap_or_default();
	let hard = story.faults.iter().any(|f| 251 <= *f) || story.ops().any(|o| matches!(o, Op::Broken(_)));

	// The states.
	let mut states = vec![Model::new(story)];
	let mut rets: Vec<Option<Ret>> = Vec::new();
	// States on the way.
	let mut halves: Vec<Vec<Model>> = Vec::new();
	if single {
		for op in &ops {
			let mut m = states.last().unwrap().clone();
			halves.push(m.between(op));
			rets.push(m.apply(op));
			states.push(m);
		}
	}

	// Return values.
	let born = run.born;
	let since = |c: u64| c.saturating_sub(born.0);
	let lone = |d: &Done| d.pre.0 == d.pre.1;
	if single {
		for d in &run.done {
			let op = ops[d.index];
			let (before, after) = (&states[d.index], &states[d.index + 1]);
			match (op, &d.ret) {
				(Op::Push(m), Ret::Push(got)) => {
					if ! hard && got.is_some() { bad!(Push, "op {}: push_msg gave back {m:?}", d.index); }
				},
				(Op::Summary(k, a, b), Ret::Text(got)) => {
					let one = before.done == 1;
					let pre = hc::colors::KINDS.iter().find(|x| x.0.eq_ignore_ascii_case(&format!("{:?}", kind(*k)))).map_or_else(String::new, |x| hc::colors::kind_prefix(x.0, x.2));
					let head = format!("{pre}{} {} in ", num::commas(before.done.into()), if one { a } else { b });
					let tails: Vec<String> = [d.start, d.end].iter().flat_map(|c| [c.saturating_sub(born.0), c.saturating_sub(born.1)]).map(|ns| format!("{head}{}.\n", num::elapsed(std::time::Duration::from_nanos(ns)))).collect();
					if count_of(got.strip_prefix(&pre).unwrap_or(got)) != Some(before.done) { bad!(Count, "op {}: summary {got:?}, the count is {}", d.index, before.done); }
					if ! got.starts_with(&head) || (lone(d) && ! tails.contains(got)) { bad!(Summary, "op {}: summary {got:?}, expected {:?}", d.index, tails[0]); }
				},
				(Op::Convert, Ret::Text(got)) => {
					let all: Vec<String> = [d.start, d.end].iter().flat_map(|c| [c.saturating_sub(born.0), c.saturating_sub(born.1)])
						.map(|ns| format!("{}Finished in {}.\n", hc::colors::kind_prefix("Done", 10), num::elapsed(std::time::Duration::from_nanos(ns)))).collect();
					if lone(d) && ! all.contains(got) { bad!(Summary, "op {}: the bar became {got:?}, expected {:?}", d.index, all[0]); }
				},
				(Op::Finish, Ret::Dur(got)) => {
					let ns = got.as_nanos() as u64;
					if lone(d) && (ns < d.start.saturating_sub(born.1) || since(d.end) < ns) { bad!(Summary, "op {}: finish returned {got:?} at {}ns after creation", d.index, since(d.end)); }
				},
				_ => if let Some(want) = &rets[d.index] && *want != d.ret { bad!(Ret, "op {} {op:?} returned {:?}, expected {want:?}", d.index, d.ret); },
			}
			// Threads.
			match op {
				Op::Finish if d.live != 0 => bad!(Threads, "op {}: {} ticker(s) alive after finish", d.index, d.live),
				Op::Reset(_) | Op::TryReset(1..) if d.live != 1 => bad!(Threads, "op {}: {} ticker(s) alive after reset", d.index, d.live),
				Op::Sleep(300..) if lone(d) && d.live != usize::from(after.running) => bad!(Threads, "op {}: {} ticker(s) alive while {}running", d.index, d.live, if after.running { "" } else { "not " }),
				_ => {},
			}
		}
		if let Some(c) = &run.final_count && count_of(c) != Some(states.last().unwrap().done) {
			bad!(Count, "final summary {c:?}, the count is {}", states.last().unwrap().done);
		}
	}
	for (what, live) in [("finish", run.live_after_finish), ("dropping the last handle", run.live_after_drop)] {
		if let Some(n) = live && n != 0 { bad!(Threads, "{n} ticker(s) alive after {what}"); }
	}

	// Promptness: leaps are time the schedule made pass.
	let mut leaps: Vec<(usize, u64)> = Vec::new();
	let mut at: std::collections::HashMap<(usize, u64), usize> = std::collections::HashMap::new();
	for (i, e) in run.out.log.iter().enumerate() {
		match e {
			Event::Leap { by } => leaps.push((i, *by)),
			Event::Mark { tid, id, .. } => { at.insert((*tid, *id), i); },
			_ => {},
		}
	}
	let leapt = |a: usize, b: usize| leaps.iter().filter(|l| a <= l.0 && l.0 <= b).map(|l| l.1).sum::<u64>();
	let rivals = |t: usize| story.threads.iter().enumerate().filter(|x| x.0 != t).flat_map(|x| x.1).filter(|o| matches!(o, Op::Finish | Op::Reset(_) | Op::TryReset(_) | Op::CloneDrop)).count() as u64;
	for d in &run.done {
		let op = &story.threads[d.thread][d.index];
		if let Op::Sleep(_) | Op::Many(..) | Op::Fewer(..) = op { continue; }
		let (Some(a), Some(b)) = (at.get(&(d.tid, mark_id(d.thread, d.index, false))), at.get(&(d.tid, mark_id(d.thread, d.index, true)))) else { continue; };
		let took = (d.end - d.start).saturating_sub(leapt(*a, *b));
		if TICK * (1 + rivals(d.thread)) < took { bad!(Prompt, "thread {} op {} {op:?} took {}ms", d.thread, d.index, took / MS); }
	}
	for (what, took) in [("finish", run.finish_took), ("drop", run.drop_took)] {
		if let Some((a, b)) = took && TICK * (1 + rivals(0)) + leapt(0, usize::MAX) < b - a { bad!(Prompt, "the final {what} took {}ms", (b - a) / MS); }
	}

	if hard { return (bad, seen); }

	// Regions: what was written under each hold of the stream.
	let mut term = { let (c, r) = emu_size(story.size); Term::new(c, r) };
	let mut size = story.size;
	let mut sizes: Vec<(u64, Option<(u16, u16)>)> = vec![(0, size)];
	let mut asked = None;
	let (mut started, mut ended) = (0_usize, 0_usize);
	let mut current: Option<Region> = None;
	let mut cur_op: std::collections::HashMap<usize, (usize, usize)> = std::collections::HashMap::new();
	let mut last: Option<(Term, Frame, Region)> = None;
	let mut last_release: std::collections::HashMap<usize, usize> = std::collections::HashMap::new();
	let mut pushed: Vec<String> = Vec::new();
	let mut push_seen: std::collections::HashMap<(usize, usize), usize> = std::collections::HashMap::new();
	let mut frames_drawn = 0_usize;
	let mut frames_at_sleep = 0_usize;
	let mut finished = false;
	// While the bar is being built, its title may not be set yet.
	let untitled = { let mut m = states[0].clone(); m.title = None; m };
	let mut created = false;
	// The screen was resized while the last frame was being drawn.
	let mut torn = false;
	// The terminal was resized to something else.
	let mut moved = false;
	for (i, e) in run.out.log.iter().enumerate() {
		match e {
			Event::Resize { size: s } => {
				size = *s;
				let clock = sizes.last().map_or(0, |x| x.0);
				let _ = clock;
				if let Some(r) = &mut current { r.resized = true; r.sizes.push(size); }
				// What is there stays there if the terminal grows, or if its
				// size just can't be told.
				let wiped = match size {
					Some((c, r)) if 2 <= c && 1 <= r => {
						let (c, r) = emu_size(size);
						if (c, r) != (term.cols, term.rows) { moved = true; }
						if term.cols <= c && term.rows <= r { term.grow(c, r); false }
						else { term.resize(c, r); true }
					},
					_ => false,
				};
				if wiped && let Some(r) = &mut current { r.wiped = true; }
				sizes.push((u64::MAX, size));
			},
			Event::Asked { size: s } => {
				asked = *s;
				if let Some(r) = &mut current && ! r.sizes.contains(s) { r.sizes.push(*s); }
			},
			Event::Mark { tid, id, clock } => {
				// Give the latest resizes a time.
				for s in &mut sizes { if s.0 == u64::MAX { s.0 = *clock; } }
				match *id {
					MARK_CREATED => created = true,
					MARK_JOINED => {},
					MARK_FINISHED => {
						finished = true;
						if ! live_blank(&term) { bad!(Clean, "after finish the screen still shows {:?}", live(&term)); }
					},
					MARK_DROPPED => {},
					MARK_SETTLED => if torn {} else if ! single { seen.settled = Some((term.clone(), last.as_ref().map(|l| (l.0.clone(), l.1.clone())))); } else { settle(story, &mut bad, &mut seen, states.last().unwrap(), size, last.as_ref(), *clock, born, run.live_settled, &term); },
					id => {
						let (thread, index, end) = ((id >> 32) as usize, ((id & 0xFFFF_FFFF) >> 1) as usize, id & 1 == 1);
						if ! end {
							cur_op.insert(*tid, (thread, index));
							if thread == 0 { started = index + 1; }
							frames_at_sleep = frames_drawn;
						}
						else {
							cur_op.remove(tid);
							if thread == 0 { ended = index + 1; }
							if single {
								let d = run.done.iter().find(|d| d.index == index);
								let (before, after) = (&states[index], &states[index + 1]);
								let stopped = before.running && ! after.running;
								if (stopped || matches!(ops[index], Op::Finish)) && ! live_blank(&term) {
									bad!(Clean, "op {index} {:?}: the run has ended but the screen shows {:?}", ops[index], live(&term));
								}
								if let (Op::Sleep(ms @ 300..), Some(d)) = (ops[index], d) && lone(d) && ! torn {
									settle(story, &mut bad, &mut seen, after, size, last.as_ref(), *clock, born, None, &term);
									let crossings = since(d.end) / 1_000_000_000 - since(d.start) / 1_000_000_000;
									let n = (frames_drawn - frames_at_sleep) as u64;
									if crossings + 2 < n { bad!(Redraw, "op {index}: {n} frames drawn in {ms}ms without any change"); }
								}
							}
						}
					},
				}
			},
			Event::Acquire { tid, err: true, clock } => {
				let since_ix = last_release.get(tid).copied().unwrap_or(0);
				let slack = 2 * TICK + 10 * MS + leapt(since_ix, i);
				let from = clock.saturating_sub(slack);
				let mut zs: Vec<Option<(u16, u16)>> = vec![size];
				// With signals, the size known is the one last asked for
				// (that it is asked for in time shows once things settle).
				if cfg!(feature = "winch") { zs.push(asked); }
				else {
				for (k, s) in sizes.iter().enumerate() {
					let until = sizes.get(k + 1).map_or(u64::MAX, |n| n.0);
					if from <= until && ! zs.contains(&s.1) { zs.push(s.1); }
				}
				}
				current = Some(Region { tid: *tid, acquire: *clock, release: 0, started, ended, bytes: Vec::new(), sizes: zs, resized: false, wiped: false, created, op: cur_op.get(tid).copied() });
			},
			Event::Write { tid, err: true, bytes, .. } => {
				match &mut current {
					Some(r) if r.tid == *tid => r.bytes.extend_from_slice(bytes),
					_ => bad!(Garbage, "thread {tid} wrote {:?} without holding the stream", String::from_utf8_lossy(bytes)),
				}
			},
			Event::Release { tid, err: true, clock } => {
				last_release.insert(*tid, i);
				let Some(mut r) = current.take() else { continue; };
				r.release = *clock;
				let first = r.ended;
				let until = started;
				if r.bytes.is_empty() { continue; }
				if ! r.wiped {
					term.feed(&r.bytes);
					if term.col != 0 || term.has_pending() || term.wrap { bad!(Garbage, "a write leaves the cursor at column {}: {:?}", term.col, String::from_utf8_lossy(&r.bytes)); }
				}
				// A pushed message comes first, the rest is the frame.
				let mut rest: &[u8] = &r.bytes;
				if let Some((th, ix)) = r.op && let Op::Push(m) = &story.threads[th][ix] {
					let mut m = m.clone();
					m.newline = true;
					let text = m.text();
					if let Some(k) = find(rest, text.as_bytes()) {
						if ! rest[..k].is_empty() && rest[..k] != *CLS { bad!(Push, "unexpected output before a pushed message: {:?}", String::from_utf8_lossy(&rest[..k])); }
						rest = &rest[k + text.len()..];
						pushed.push(text);
						*push_seen.entry((th, ix)).or_default() += 1;
						seen.pushes += 1;
					}
				}
				if finished && rest != CLS && ! rest.is_empty() { bad!(Clean, "drawn after the final finish: {:?}", String::from_utf8_lossy(rest)); }
				if r.resized { last = None; torn = true; seen.torn += 1; continue; }
				torn = false;
				if rest.is_empty() {
					// Just a message (or nothing): the live area is whatever the
					// message left, which is checked through the main screen.
					last = Some((Term::new(2, 1), Frame::Blank, r));
					continue;
				}
				let mut best: Option<(Vec<Bad>, Term, Frame)> = None;
				for z in &r.sizes {
					let mut t = { let (c, rr) = emu_size(*z); Term::new(c, rr) };
					t.feed(rest);
					let f = parse(&t);
					let b = match z {
						Some(z) if usable(Some(*z)).is_some() => {
							let secs = Some((r.acquire.saturating_sub(born.1) / 1_000_000_000, r.release.saturating_sub(born.0) / 1_000_000_000));
							if single { compare(&t, &f, &states[first..=until].iter().chain(halves[first..until].iter().flatten()).chain((! r.created).then_some(&untitled)).collect::<Vec<_>>(), *z, secs) }
							else { geometry(&t, &f, *z) }
						},
						_ => if f == Frame::Blank { Vec::new() } else { vec![Bad { cat: Cat::Form, msg: format!("drew {f:?} on a {z:?} terminal") }] },
					};
					if best.as_ref().is_none_or(|x| b.len() < x.0.len()) { best = Some((b, t, f)); }
				}
				let (b, t, f) = best.unwrap();
				for x in b { bad.push(Bad { cat: x.cat, msg: format!("{} (ops {first}..={until} at {}ms)", x.msg, since(*clock) / MS) }); }
				match &f {
					Frame::Full { title, tasks, .. } => {
						seen.full += 1;
						if title.is_some() { seen.with_title += 1; }
						if ! tasks.is_empty() { seen.with_tasks += 1; }
						seen.most_tasks = seen.most_tasks.max(tasks.len());
					},
					Frame::Compact(_) => seen.compact += 1,
					_ => {},
				}
				if f != Frame::Blank { seen.frames += 1; frames_drawn += 1; }
				last = Some((t, f, r));
			},
			_ => {},
		}
	}

	// Pushed messages: exactly once each, intact, above the bar.
	for d in &run.done {
		if let Op::Push(_) = &story.threads[d.thread][d.index] {
			let n = push_seen.get(&(d.thread, d.index)).copied().unwrap_or(0);
			if n != 1 { bad!(Push, "the message pushed by thread {} op {} was printed {n} times", d.thread, d.index); }
		}
	}
	if ! moved {
		let (c, r) = emu_size(story.size);
		let mut want = Term::new(c, r);
		for m in &pushed { want.feed(m.as_bytes()); }
		let perm = |t: &Term| -> Vec<String> { t.scrollback.iter().chain(&t.grid[..t.row]).map(|r| Term::line(r)).collect() };
		let (a, b) = (perm(&term), perm(&want));
		if a != b { bad!(Push, "above the bar the terminal shows {a:?}, pushed were {b:?}"); }
	}
	(bad, seen)
}

pub fn live(t: &Term) -> Vec<String> {
	let mut v: Vec<String> = t.grid[t.row..].iter().map(|r| Term::line(r)).collect();
	while v.last().is_some_and(String::is_empty) { v.pop(); }
	v
}
pub fn live_blank(t: &Term) -> bool { live(t).is_empty() }

/// After a pause the screen must show the current state exactly.
#[expect(clippy::too_many_arguments, reason = "Internal.")]
fn settle(story: &Story, bad: &mut Vec<Bad>, seen: &mut Seen, m: &Model, size: Option<(u16, u16)>, last: Option<&(Term, Frame, Region)>, clock: u64, born: (u64, u64), live_threads: Option<usize>, term: &Term) {
	macro_rules! bad { ($cat:ident, $($t:tt)+) => (bad.push(Bad { cat: Cat::$cat, msg: format!($($t)+) })) }
	if let Some(n) = live_threads && n != usize::from(m.running) { bad!(Threads, "{n} ticker(s) alive while {}running", if m.running { "" } else { "not " }); }
	if ! m.running {
		if ! live_blank(term) { bad!(Clean, "the run is over but the screen shows {:?}", live(term)); }
		return;
	}
	let Some((w, h)) = usable(size) else { return; };
	let _ = (h, story);
	seen.settles += 1;
	if w < 10 {
		// Too small for anything: what was there has to go.
		if let Some((_, f, _)) = last && *f != Frame::Blank { bad!(Stale, "{f:?} is still there on a {size:?} terminal"); }
		return;
	}
	let Some((t, f, r)) = last else { bad!(Stale, "nothing was drawn on a {size:?} terminal for {m:?}"); return; };
	if *f == Frame::Blank { bad!(Stale, "the bar is not drawn on a {size:?} terminal for {m:?}"); return; }
	let now = clock.saturating_sub(born.0);
	let lo = now.saturating_sub(TICK + 2 * MS) / 1_000_000_000;
	let hi = now / 1_000_000_000;
	let _ = r;
	for x in compare(t, f, &[m], size.unwrap(), Some((lo, hi))) {
		bad.push(Bad { cat: x.cat, msg: format!("at {}ms, with nothing left to do: {}", now / MS, x.msg) });
		bad.push(Bad { cat: Cat::Stale, msg: format!("outdated: {}", x.msg) });
	}
}
