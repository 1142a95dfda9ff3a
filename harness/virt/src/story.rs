//! Playing stories: one or more threads driving a progress bar in a virtual
//! world.

pub use crate::model::*;
use fyi_msg::{Msg, Progless};
use std::num::NonZeroU32;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use stdshim::virt::{self, Config, Event, Fault, Outcome};

/// One tick, in (virtual) nanoseconds.
pub const TICK: u64 = 100_000_000;
pub const MS: u64 = 1_000_000;

/// A performed operation.
#[derive(Debug, Clone)]
pub struct Done {
	pub thread: usize,
	pub index: usize,
	pub ret: Ret,
	pub start: u64,
	pub end: u64,
	/// Forced context switches before and after.
	pub pre: (u64, u64),
	/// Library threads alive right after.
	pub live: usize,
	/// Virtual thread id.
	pub tid: usize,
}

pub fn fault(n: u8) -> Fault {
	match n {
		0 => Fault::None,
		250 => Fault::Interrupted,
		251 => Fault::BrokenPipe,
		252 => Fault::NoSpace,
		253 => Fault::WouldBlock,
		254 | 255 => Fault::Zero,
		n => Fault::Short(usize::from(n)),
	}
}

pub fn mark_id(thread: usize, index: usize, end: bool) -> u64 { ((thread as u64) << 32) | ((index as u64) << 1) | u64::from(end) }
/// Marks not belonging to an operation.
pub const MARK_CREATED: u64 = u64::MAX;
pub const MARK_JOINED: u64 = u64::MAX - 1;
pub const MARK_FINISHED: u64 = u64::MAX - 2;
pub const MARK_DROPPED: u64 = u64::MAX - 3;
pub const MARK_SETTLED: u64 = u64::MAX - 4;

pub struct Run {
	pub out: Outcome,
	pub done: Vec<Done>,
	/// Count reported after all threads were joined.
	pub final_count: Option<String>,
	pub live_settled: Option<usize>,
	pub live_after_finish: Option<usize>,
	pub live_after_drop: Option<usize>,
	/// Clocks around the bar's creation.
	pub born: (u64, u64),
	/// Start/end clock of finish and drop.
	pub finish_took: Option<(u64, u64)>,
	pub drop_took: Option<(u64, u64)>,
	/// Result of the closing finish.
	pub finish_ret: Option<Duration>,
}

#[derive(Default)]
struct Shared {
	done: Vec<Done>,
	final_count: Option<String>,
	live_settled: Option<usize>,
	live_after_finish: Option<usize>,
	live_after_drop: Option<usize>,
	born: (u64, u64),
	finish_took: Option<(u64, u64)>,
	drop_took: Option<(u64, u64)>,
	finish_ret: Option<Duration>,
}

fn winch() {
	#[cfg(feature = "winch")]
	stdshim::signal::deliver(libc::SIGWINCH);
}

fn perform(bar: &Progless, op: &Op) -> Ret {
	match op {
		Op::Inc => bar.increment(),
		Op::IncN(n) => bar.increment_n(*n),
		Op::SetDone(n) => bar.set_done(*n),
		Op::Add(s) => return Ret::Bool(bar.add(s)),
		Op::Remove(s) => bar.remove(s),
		Op::Many(a, n) => return Ret::Added(numbered(*a, *n).filter(|s| bar.add(s)).count()),
		Op::Fewer(a, n) => for s in numbered(*a, *n) { bar.remove(s); },
		Op::Title(t) => bar.set_title(t.as_ref().map(Spec::build)),
		Op::TitleMsg(s) => bar.set_title_msg(s),
		Op::Splines(s) if s.len() % 3 == 0 => drop(bar.clone().with_reticulating_splines(s)),
		Op::Splines(s) => bar.set_reticulating_splines(s),
		Op::Push(m) => return Ret::Push(bar.push_msg(m.build()).err().map(|m| m.as_str().to_owned())),
		Op::Reset(n) => bar.reset(NonZeroU32::new((*n).max(1)).unwrap()),
		Op::TryReset(n) => return Ret::Try(bar.try_reset(*n)),
		Op::Finish => return Ret::Dur(bar.finish()),
		Op::Sleep(ms) => stdshim::thread::sleep(Duration::from_millis(u64::from(*ms))),
		Op::Jump(secs) => {
			let by = u64::from(*secs) * 1_000_000_000;
			virt::with_state(|s| { s.clock += by; s.log.push(Event::Leap { by }); });
		},
		Op::Resize(s) => { virt::resize(*s); winch(); },
		Op::Summary(k, a, b) => return Ret::Text(bar.summary(kind(*k), a.as_str(), b.as_str()).as_str().to_owned()),
		Op::Convert => return Ret::Text(Msg::from(bar.clone()).as_str().to_owned()),
		Op::CloneDrop => drop(bar.clone()),
		Op::Broken(b) => { virt::with_state(|s| s.err_broken = b.map(|n| fault(251 + n % 4))); },
	}
	Ret::Unit
}

fn play(bar: &Progless, thread: usize, ops: &[Op], shared: &Arc<Mutex<Shared>>) {
	for (index, op) in ops.iter().enumerate() {
		let (start, p0) = virt::with_state(|s| (s.clock, s.preemptions)).unwrap();
		virt::mark(mark_id(thread, index, false));
		let ret = perform(bar, op);
		let live = virt::live_library_threads();
		virt::mark(mark_id(thread, index, true));
		let (end, p1) = virt::with_state(|s| (s.clock, s.preemptions)).unwrap();
		let tid = virt::me().unwrap().1;
		shared.lock().unwrap().done.push(Done { thread, index, ret, start, end, pre: (p0, p1), live, tid });
	}
}

pub fn run(story: &Story) -> Run {
	let shared = Arc::new(Mutex::new(Shared::default()));
	let config = Config {
		switches: story.switches.clone(),
		size: story.size,
		err_faults: story.faults.iter().copied().map(fault).collect(),
		max_steps: 400_000,
		.. Config::default()
	};
	let st = story.clone();
	let sh = Arc::clone(&shared);
	let out = virt::run(config, move || {
		let t0 = virt::now();
		let mut bar =
			if st.total == 0 { Progless::default() }
			else { Progless::try_from(st.total).expect("total is valid") };
		let t1 = virt::now();
		if let Some(t) = &st.title { bar = bar.with_title(Some(t.build())); }
		sh.lock().unwrap().born = (t0, t1);
		virt::mark(MARK_CREATED);
		let handles: Vec<_> = st.threads.iter().cloned().enumerate().skip(1).map(|(i, ops)| {
			let b = bar.clone();
			let s = Arc::clone(&sh);
			stdshim::thread::spawn_harness(move || { play(&b, i, &ops, &s); drop(b); })
		}).collect();
		if let Some(ops) = st.threads.first() { play(&bar, 0, ops, &sh); }
		for h in handles { let _ = h.join(); }
		virt::mark(MARK_JOINED);
		let c = summary_text(&bar);
		sh.lock().unwrap().final_count = Some(c);
		if st.settle {
			let p0 = virt::with_state(|s| s.preemptions);
			stdshim::thread::sleep(Duration::from_millis(350));
			let live = virt::live_library_threads();
			if p0 == virt::with_state(|s| s.preemptions) {
				virt::mark(MARK_SETTLED);
				sh.lock().unwrap().live_settled = Some(live);
			}
		}
		if st.finish {
			let t0 = virt::now();
			let d = bar.finish();
			let live = virt::live_library_threads();
			let t1 = virt::now();
			virt::mark(MARK_FINISHED);
			let mut s = sh.lock().unwrap();
			s.finish_ret = Some(d);
			s.live_after_finish = Some(live);
			s.finish_took = Some((t0, t1));
		}
		let t0 = virt::now();
		drop(bar);
		let live = virt::live_library_threads();
		let t1 = virt::now();
		virt::mark(MARK_DROPPED);
		let mut s = sh.lock().unwrap();
		s.live_after_drop = Some(live);
		s.drop_took = Some((t0, t1));
	});
	// (Stuck threads stay around.)
	if 1500 < virt::leaked() { hc::tire(); }
	if std::env::var_os("VIRT_LOG").is_some() {
		for e in &out.log { eprintln!("{e:?}"); }
		eprintln!("{:?} {:?}", out.verdict, out.panics);
	}
	let s = std::mem::take(&mut *shared.lock().unwrap());
	Run {
		out, done: s.done, final_count: s.final_count, live_settled: s.live_settled, live_after_finish: s.live_after_finish, live_after_drop: s.live_after_drop,
		born: s.born, finish_took: s.finish_took, drop_took: s.drop_took, finish_ret: s.finish_ret,
	}
}
