//! Concurrent histories against all their possible orders.

use crate::judge::{Bad, Cat, Frame, compare, judge, live, live_blank};
use crate::story::*;
use crate::tales::{self, Mix};
use hc::proptest::prelude::*;
use hc::{Obs, Prop};
use std::collections::{HashMap, HashSet};
use stdshim::virt::Event;

/// An operation as observed: its place in real time and its result.
struct Seen<'a> { op: &'a Op, ret: &'a Ret, start: usize, end: usize }

/// Find every final state reachable by some order of the operations that
/// respects real time and explains every result. A removal is two steps
/// (taking the label off, counting it), so is a reset (ending the old run,
/// starting the new one), anything else one.
fn finals(story: &Story, threads: &[Vec<Seen<'_>>]) -> (HashSet<Model>, usize) {
	// Position per thread, and whether the operation there is half done.
	type Key = (Vec<(usize, bool)>, Model);
	let mut out = HashSet::new();
	let mut been: HashSet<Key> = HashSet::new();
	let mut todo: Vec<Key> = vec![(vec![(0, false); threads.len()], Model::new(story))];
	while let Some((at, m)) = todo.pop() {
		if ! been.insert((at.clone(), m.clone())) { continue; }
		// The earliest end among operations that have not taken effect.
		let bound = threads.iter().zip(&at).flat_map(|(t, p)| t[p.0..].iter().map(|s| s.end)).min();
		let Some(bound) = bound else { out.insert(m); continue; };
		for (i, t) in threads.iter().enumerate() {
			let Some(s) = t.get(at[i].0) else { continue; };
			if bound < s.start { continue; }
			let mut next = at.clone();
			let mut n = m.clone();
			if at[i].1 {
				// Second half.
				if let Op::Remove(_) = s.op { n.set(n.done + 1); }
				else { n.apply(s.op); }
				next[i] = (at[i].0 + 1, false);
				todo.push((next, n));
				continue;
			}
			next[i].0 += 1;
			if let Op::Remove(x) = s.op {
				if n.take(x) { next[i] = (at[i].0, true); }
				todo.push((next, n));
				continue;
			}
			if let Op::Reset(_) | Op::TryReset(1..) = s.op {
				n.end();
				next[i] = (at[i].0, true);
				todo.push((next, n));
				continue;
			}
			if let (Op::Summary(..), Ret::Text(got)) = (s.op, s.ret) {
				// (Only ever used with a plain kind and nouns.)
				if count_of(got) == Some(m.done) { todo.push((next, n)); }
				continue;
			}
			if let Op::Convert = s.op { todo.push((next, n)); continue; }
			let want = n.apply(s.op);
			if want.is_none_or(|w| w == *s.ret) { todo.push((next, n)); }
		}
	}
	(out, been.len())
}

/// The mix of most of these.
const EVEN: Mix = Mix { count: 8, set: 3, task: 8, title: 2, push: 1, reset: 2, finish: 1, sleep: 1, settle: 0, jump: 0, resize: 0, summary: 4, clone: 1, broken: 0, many: 0, white: 0 };
const COUNTS: Mix = Mix { count: 10, task: 2, title: 0, reset: 0, finish: 0, .. EVEN };
const ENDS: Mix = Mix { reset: 6, finish: 4, title: 0, .. EVEN };
/// Counting, ending and beginning again.
const RUNS: Mix = Mix { count: 10, set: 5, task: 1, title: 0, push: 0, reset: 4, finish: 2, sleep: 1, .. EVEN };
/// Mostly tasks.
const TASKS: Mix = Mix { count: 2, set: 1, task: 16, title: 0, push: 0, reset: 2, finish: 1, summary: 1, .. EVEN };
/// Mostly titles.
const TITLES: Mix = Mix { count: 2, set: 1, task: 2, title: 14, push: 1, reset: 2, finish: 1, summary: 0, .. EVEN };

fn crowds(mixes: &[(u32, Mix, usize)]) -> BoxedStrategy<Story> {
	let size = || (100_u16..140, 24_u16..40).prop_map(Some).boxed();
	let total = || prop_oneof![4 => 1_u32..8, 2 => 8_u32..40, 1 => tales::total().prop_map(|n| n.max(1))].boxed();
	let all = mixes.iter().map(|(w, m, len)| (*w, tales::crowd(*m, total(), size(), 3, *len))).collect();
	hc::proptest::strategy::Union::new_weighted(all).prop_map(|mut s| {
		// Plain summaries, so that the count can be read off.
		for o in s.threads.iter_mut().flatten() {
			if matches!(o, Op::Summary(..)) { *o = Op::Summary(0, "~".to_owned(), "~".to_owned()); }
		}
		s
	}).boxed()
}

macro_rules! crowd_prop {
	($ty:ident, $mixes:expr, $what:literal) => (
		pub struct $ty;
		impl Prop for $ty {
			type Case = Story;
			const NAME: &'static str = stringify!($ty);
			const RULE: &'static str = concat!("two or three threads with up to five operations each", $what, " on one bar, context switches forced at random synchronisation points; results, final count, and final frame (done, total, tasks, title) must be explained by some order of the operations consistent with real time (exhaustive search over orders); non-trivial = at least one forced switch and two threads with state-changing operations");
			fn strategy(&self) -> BoxedStrategy<Story> { crowds($mixes) }
			fn check(&self, story: &Story, obs: &mut Obs) -> Result<(), String> { explained(story, obs) }
			fn shrink_iters(&self) -> u32 { 6_000 }
		}
	);
}
crowd_prop!(C20, &[(3, EVEN, 4), (2, COUNTS, 5), (2, ENDS, 4)], "");
crowd_prop!(C18crowd, &[(1, RUNS, 4), (1, COUNTS, 5)], ", mostly counts, ends and resets,");
crowd_prop!(C19crowd, &[(1, TASKS, 4), (1, Mix { reset: 4, finish: 3, .. TASKS }, 4)], ", mostly tasks,");
crowd_prop!(C26crowd, &[(1, TITLES, 4)], ", mostly titles,");

/// Is there an order that explains what happened?
fn explained(story: &Story, obs: &mut Obs) -> Result<(), String> {
	let r = run(story);
	let (bad, seen) = judge(story, &r);
	if let Some(b) = bad.iter().find(|b| matches!(b.cat, Cat::Stuck | Cat::Panic)) { return Err(format!("[{:?}] {}", b.cat, b.msg)); }
	// Where each operation starts and ends in the log.
	let mut at: HashMap<u64, usize> = HashMap::new();
	for (i, e) in r.out.log.iter().enumerate() {
		if let Event::Mark { id, .. } = e { at.insert(*id, i); }
	}
	let mut threads: Vec<Vec<Seen<'_>>> = story.threads.iter().map(|_| Vec::new()).collect();
	let mut done: Vec<&Done> = r.done.iter().collect();
	done.sort_by_key(|d| (d.thread, d.index));
	for d in done {
		threads[d.thread].push(Seen {
			op: &story.threads[d.thread][d.index],
			ret: &d.ret,
			start: at[&mark_id(d.thread, d.index, false)],
			end: at[&mark_id(d.thread, d.index, true)],
		});
	}
	let (mut ends, looked) = finals(story, &threads);
	obs.label_if(500 < looked, "more than 500 orders/states");
	obs.label_if(r.out.preemptions != 0, "preempted");
	let busy = story.threads.iter().filter(|t| t.iter().any(|o| ! matches!(o, Op::Sleep(_) | Op::Summary(..) | Op::Convert | Op::CloneDrop))).count();
	obs.nontrivial_if(r.out.preemptions != 0 && 2 <= busy);
	if ends.is_empty() {
		return Err(format!("no order of the operations explains their results: {:?}", r.done.iter().map(|d| (d.thread, d.index, &d.ret)).collect::<Vec<_>>()));
	}
	let count = r.final_count.as_deref().and_then(count_of);
	let all: Vec<u64> = ends.iter().map(|m| m.done).collect();
	ends.retain(|m| Some(m.done) == count);
	if ends.is_empty() { return Err(format!("the final count is {count:?}, possible are {all:?}")); }
	if let Some((term, last)) = &seen.settled {
		obs.label("final frame compared");
		let mut why: Vec<String> = Vec::new();
		let ok = ends.iter().any(|m| {
			if ! m.running {
				if ! live_blank(term) { why.push(format!("ended, but the screen shows {:?}", live(term))); }
				return live_blank(term);
			}
			let Some((t, f)) = last else { why.push("running, but nothing is drawn".to_owned()); return false; };
			if *f == Frame::Blank { why.push("running, but the screen is blank".to_owned()); return false; }
			let bad: Vec<Bad> = compare(t, f, &[m], story.size.unwrap(), None);
			why.extend(bad.iter().map(|b| b.msg.clone()));
			bad.is_empty()
		});
		if ! ok { return Err(format!("the final frame fits no possible final state {ends:?}: {}", why.join("; "))); }
		if let Some(n) = r.live_settled && ends.iter().all(|m| usize::from(m.running) != n) {
			return Err(format!("{n} ticker(s) alive in the end, possible final states are {ends:?}"));
		}
	}
	Ok(())
}
