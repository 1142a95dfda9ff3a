//! The scheduler and the world it runs.

use ::std::cell::RefCell;
use ::std::collections::VecDeque;
use ::std::panic::{AssertUnwindSafe, catch_unwind};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard, PoisonError};
use ::std::time::Duration;

/// What a blocked thread is waiting for.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Res {
	Lock(usize),
	Cond(usize),
	Join(usize),
	Park(usize),
	/// Only its deadline.
	Time,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Status {
	Runnable,
	Blocked(Res, Option<u64>),
	Done,
}

struct Th {
	status: Status,
	timed_out: bool,
	cv: Arc<Condvar>,
	/// Started by the code under test rather than by the harness.
	library: bool,
	unpark: bool,
	/// Running a signal handler.
	masked: bool,
}

/// Something that happened, in order.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Event {
	/// A stream lock was taken/released (outermost level).
	Acquire { tid: usize, err: bool, clock: u64 },
	Release { tid: usize, err: bool, clock: u64 },
	/// Bytes reached a device.
	Write { tid: usize, err: bool, bytes: Vec<u8>, clock: u64 },
	/// A device refused a write.
	Refused { tid: usize, err: bool },
	/// The terminal changed size.
	Resize { size: Option<(u16, u16)> },
	/// The size was asked for.
	Asked { size: Option<(u16, u16)> },
	/// The harness left a note.
	Mark { tid: usize, id: u64, clock: u64 },
	Spawn { tid: usize, library: bool },
	Exit { tid: usize, clock: u64 },
	/// The schedule let time pass although a thread could have run.
	Leap { by: u64 },
	/// A device was read: how many bytes.
	Read { bytes: usize },
	/// A signal handler was installed.
	Handler { sig: i32 },
	/// A signal is about to be, or has been, handled.
	Signal { sig: i32, tid: usize, clock: u64, done: bool },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
	Finished,
	/// The process was ended by one of its threads.
	Exited(i32),
	Deadlock(String),
	Livelock(String),
}

/// What a write call does.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
	None,
	Short(usize),
	Interrupted,
	BrokenPipe,
	NoSpace,
	WouldBlock,
	Zero,
}

/// How a world runs.
#[derive(Debug, Clone, Default)]
pub struct Config {
	/// Context switches: after so many scheduling points, switch to a thread.
	pub switches: Vec<(u16, u8)>,
	pub size: Option<(u16, u16)>,
	/// Faults for successive writes to standard error / standard output.
	pub err_faults: Vec<Fault>,
	pub out_faults: Vec<Fault>,
	pub stdin: Vec<u8>,
	/// Sizes of successive reads (0 = interrupted); then everything.
	pub reads: Vec<usize>,
	/// The end of the input is an error.
	pub stdin_fails: bool,
	pub max_steps: u64,
	/// SIGINTs: each arrives so many scheduling points after the one before
	/// (or after somebody started to listen).
	pub sigints: Vec<u16>,
	/// Pass everything written to standard error on to the real one.
	pub through: bool,
}

pub struct State {
	threads: Vec<Th>,
	current: usize,
	pub clock: u64,
	pub steps: u64,
	max_steps: u64,
	switches: VecDeque<(u16, u8)>,
	countdown: u64,
	verdict: Option<Verdict>,
	pub log: Vec<Event>,
	pub panics: Vec<String>,
	pub size: Option<(u16, u16)>,
	pub err_faults: VecDeque<Fault>,
	pub out_faults: VecDeque<Fault>,
	/// While set, every write to standard error fails this way.
	pub err_broken: Option<Fault>,
	pub out_broken: Option<Fault>,
	pub stdin: VecDeque<u8>,
	pub reads: VecDeque<usize>,
	pub stdin_fails: bool,
	/// Number of context switches actually taken away from a runnable thread.
	pub preemptions: u64,
	pub spawned: u64,
	pub sigints: VecDeque<u16>,
	sig_wait: u64,
	pub through: bool,
	/// No preemption, no signals.
	pub calm: bool,
}

pub struct World {
	m: Mutex<State>,
	done: Condvar,
	pub io: crate::io::Streams,
}

#[derive(Debug)]
pub struct Outcome {
	pub verdict: Verdict,
	pub log: Vec<Event>,
	pub panics: Vec<String>,
	pub clock: u64,
	pub steps: u64,
	pub preemptions: u64,
}

thread_local! {
	static ME: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
}

impl World {
	pub fn lock(&self) -> MutexGuard<'_, State> { self.m.lock().unwrap_or_else(PoisonError::into_inner) }
}

/// Current world and thread id.
pub fn me() -> Option<(Arc<World>, usize)> { ME.try_with(|m| m.borrow().clone()).ok().flatten() }

pub fn is_virtual() -> bool { ME.try_with(|m| m.borrow().is_some()).unwrap_or(false) }

/// Call from the panic hook; true if the panic belongs to a virtual thread.
pub fn on_panic(msg: String) -> bool {
	if let Some((w, _)) = me() {
		w.lock().panics.push(msg);
		true
	}
	else { false }
}

impl State {
	/// Threads that could run next: runnable ones, then the timed waiter with
	/// the earliest deadline.
	fn candidates(&self) -> Vec<usize> {
		let mut out: Vec<usize> = Vec::with_capacity(self.threads.len());
		for (i, t) in self.threads.iter().enumerate() {
			if t.status == Status::Runnable { out.push(i); }
		}
		if let Some(i) = self.earliest() { out.push(i); }
		out
	}

	fn earliest(&self) -> Option<usize> {
		self.threads.iter().enumerate()
			.filter_map(|(i, t)| if let Status::Blocked(_, Some(d)) = t.status { Some((d, i)) } else { None })
			.min()
			.map(|(_, i)| i)
	}

	/// Make a thread current, waking it by timeout if it is waiting.
	fn switch_to(&mut self, to: usize) {
		let t = &mut self.threads[to];
		if let Status::Blocked(_, Some(d)) = t.status {
			t.status = Status::Runnable;
			t.timed_out = true;
			self.clock = self.clock.max(d);
		}
		self.current = to;
		self.threads[to].cv.notify_one();
	}

	fn next_sigint(&mut self) { self.sig_wait = self.sigints.front().map_or(u64::MAX, |n| u64::from(*n)); }

	fn next_countdown(&mut self) {
		self.countdown = self.switches.front().map_or(u64::MAX, |s| u64::from(s.0));
	}

	fn describe(&self) -> String {
		self.threads.iter().enumerate()
			.map(|(i, t)| format!("t{i}{}: {:?}", if t.library { " (library)" } else { "" }, t.status))
			.collect::<Vec<_>>().join("; ")
	}

	/// Pick who runs after the current thread blocked or ended. False if
	/// nobody can.
	fn handoff(&mut self, from: usize) -> bool {
		let n = self.threads.len();
		let runnable: Vec<usize> = (1..=n).map(|k| (from + k) % n).filter(|i| self.threads[*i].status == Status::Runnable).collect();
		let to = if runnable.is_empty() {
			match self.earliest() { Some(i) => i, None => return false }
		}
		else if runnable.len() == 1 { runnable[0] }
		else {
			// Let the schedule choose, if it has a choice to spend.
			let k = if self.calm { 0 } else { self.switches.pop_front().map_or(0, |s| usize::from(s.1)) };
			self.next_countdown();
			runnable[k % runnable.len()]
		};
		self.switch_to(to);
		true
	}
}

fn wait_turn(w: &World, mut s: MutexGuard<'_, State>, me: usize) {
	while s.current != me || s.verdict.is_some() {
		let cv = Arc::clone(&s.threads[me].cv);
		let _ = w;
		s = cv.wait(s).unwrap_or_else(PoisonError::into_inner);
	}
}

fn finish(w: &World, s: &mut State, v: Verdict) {
	if s.verdict.is_none() { s.verdict = Some(v); }
	w.done.notify_all();
}

/// A scheduling point.
pub fn point() {
	let Some((w, me)) = me() else { return; };
	let mut s = w.lock();
	s.steps += 1;
	if s.steps > s.max_steps {
		let d = s.describe();
		let steps = s.steps;
		finish(&w, &mut s, Verdict::Livelock(format!("{steps} steps; {d}")));
		wait_turn(&w, s, me);
		return;
	}
	if s.calm { return; }
	if ! s.sigints.is_empty() && ! s.threads[me].masked && crate::signal::handled(SIGINT) {
		if s.sig_wait != 0 { s.sig_wait -= 1; }
		else {
			s.sigints.pop_front();
			s.next_sigint();
			drop(s);
			crate::signal::deliver(SIGINT);
			s = w.lock();
		}
	}
	if s.countdown != 0 { s.countdown -= 1; return; }
	if let Some((_, which)) = s.switches.pop_front() {
		s.next_countdown();
		let c = s.candidates();
		let to = c[usize::from(which) % c.len()];
		if to != me {
			s.preemptions += 1;
			let before = s.clock;
			s.switch_to(to);
			if s.clock != before {
				let by = s.clock - before;
				s.log.push(Event::Leap { by });
			}
			wait_turn(&w, s, me);
		}
	}
}

const SIGINT: i32 = 2;

/// End the world: none of its threads runs any further.
pub fn exit_world(code: i32) -> ! {
	let Some((w, me)) = me() else { ::std::process::exit(code) };
	let mut s = w.lock();
	finish(&w, &mut s, Verdict::Exited(code));
	wait_turn(&w, s, me);
	unreachable!()
}

pub(crate) fn set_masked(on: bool) {
	if let Some((w, me)) = me() { w.lock().threads[me].masked = on; }
}

/// Block the current thread until `unblock` or the deadline (absolute,
/// virtual nanoseconds). True if it timed out.
pub fn block(res: Res, deadline: Option<u64>) -> bool {
	let Some((w, me)) = me() else { return true; };
	let mut s = w.lock();
	s.steps += 1;
	if s.steps > s.max_steps {
		let d = s.describe();
		let steps = s.steps;
		finish(&w, &mut s, Verdict::Livelock(format!("{steps} steps; {d}")));
	}
	s.threads[me].status = Status::Blocked(res, deadline);
	s.threads[me].timed_out = false;
	if ! s.handoff(me) {
		let d = s.describe();
		finish(&w, &mut s, Verdict::Deadlock(d));
	}
	wait_turn(&w, s, me);
	w.lock().threads[me].timed_out
}

/// Wake threads waiting on something.
pub fn unblock(res: Res, all: bool) {
	let Some((w, _)) = me() else { return; };
	let mut s = w.lock();
	for t in &mut s.threads {
		if matches!(t.status, Status::Blocked(r, _) if r == res) {
			t.status = Status::Runnable;
			t.timed_out = false;
			if ! all { break; }
		}
	}
}

pub fn now() -> u64 { me().map_or(0, |(w, _)| w.lock().clock) }

pub fn sleep_ns(ns: u64) {
	if ! is_virtual() { return; }
	let until = now().saturating_add(ns);
	block(Res::Time, Some(until));
}

/// Set a park token; true if it was a wake-up.
pub fn unpark(tid: usize) {
	let Some((w, _)) = me() else { return; };
	let mut s = w.lock();
	s.threads[tid].unpark = true;
	if matches!(s.threads[tid].status, Status::Blocked(Res::Park(t), _) if t == tid) { s.threads[tid].status = Status::Runnable; }
}

pub fn park(deadline: Option<u64>) {
	let Some((w, me)) = me() else { return; };
	point();
	{
		let mut s = w.lock();
		if std::mem::take(&mut s.threads[me].unpark) { return; }
	}
	block(Res::Park(me), deadline);
	w.lock().threads[me].unpark = false;
}

/// Is that thread over?
pub fn is_done(tid: usize) -> bool { me().is_none_or(|(w, _)| w.lock().threads[tid].status == Status::Done) }

/// Library threads that have not ended.
pub fn live_library_threads() -> usize {
	me().map_or(0, |(w, _)| w.lock().threads.iter().filter(|t| t.library && t.status != Status::Done).count())
}

/// Terminal size.
pub fn term_size() -> Option<(u16, u16)> {
	point();
	let (w, _) = me()?;
	let mut s = w.lock();
	let size = s.size;
	s.log.push(Event::Asked { size });
	size
}

/// Change the terminal size.
pub fn resize(size: Option<(u16, u16)>) {
	let Some((w, _)) = me() else { return; };
	let mut s = w.lock();
	s.size = size;
	s.log.push(Event::Resize { size });
}

/// Leave a note in the log.
pub fn mark(id: u64) {
	let Some((w, tid)) = me() else { return; };
	let mut s = w.lock();
	let clock = s.clock;
	s.log.push(Event::Mark { tid, id, clock });
}

pub fn log(e: Event) {
	if let Some((w, _)) = me() { w.lock().log.push(e); }
}

/// Access the state (no scheduling point).
pub fn with_state<T>(f: impl FnOnce(&mut State) -> T) -> Option<T> {
	me().map(|(w, _)| f(&mut w.lock()))
}

pub(crate) fn spawn_in<F>(library: bool, f: F) -> Option<usize>
where F: FnOnce() + Send + 'static {
	let (w, _) = me()?;
	let tid = {
		let mut s = w.lock();
		let tid = s.threads.len();
		s.threads.push(Th { status: Status::Runnable, timed_out: false, cv: Arc::new(Condvar::new()), library, unpark: false, masked: false });
		s.spawned += 1;
		s.log.push(Event::Spawn { tid, library });
		tid
	};
	start(&w, tid, f);
	point();
	Some(tid)
}

fn start<F>(w: &Arc<World>, tid: usize, f: F)
where F: FnOnce() + Send + 'static {
	let w = Arc::clone(w);
	let body = move || {
		{
			let s = w.lock();
			wait_turn(&w, s, tid);
		}
		ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&w), tid)));
		let _ = catch_unwind(AssertUnwindSafe(f));
		ME.with(|m| *m.borrow_mut() = None);
		let mut s = w.lock();
		s.threads[tid].status = Status::Done;
		let clock = s.clock;
		s.log.push(Event::Exit { tid, clock });
		for t in &mut s.threads {
			if matches!(t.status, Status::Blocked(Res::Join(x), _) if x == tid) { t.status = Status::Runnable; t.timed_out = false; }
		}
		if s.threads.iter().all(|t| t.status == Status::Done) { finish(&w, &mut s, Verdict::Finished); }
		else if ! s.handoff(tid) {
			let d = s.describe();
			finish(&w, &mut s, Verdict::Deadlock(d));
		}
	};
	pool::run(Box::new(body));
}

/// Threads that never ended.
static LEAKED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);

/// How many threads were leaked so far.
pub fn leaked() -> usize { LEAKED.load(::std::sync::atomic::Ordering::SeqCst) }

/// Run a closure as the first thread of a fresh world, until every thread has
/// ended (or nothing can run any more, in which case its threads are leaked).
pub fn run<F>(c: Config, f: F) -> Outcome
where F: FnOnce() + Send + 'static {
	let mut s = State {
		threads: vec![Th { status: Status::Runnable, timed_out: false, cv: Arc::new(Condvar::new()), library: false, unpark: false, masked: false }],
		current: 0,
		// Not zero, so that "earlier than the start" exists.
		clock: 1_000_000_000_000,
		steps: 0,
		max_steps: if c.max_steps == 0 { 2_000_000 } else { c.max_steps },
		switches: c.switches.into(),
		countdown: 0,
		verdict: None,
		log: Vec::new(),
		panics: Vec::new(),
		size: c.size,
		err_faults: c.err_faults.into(),
		out_faults: c.out_faults.into(),
		err_broken: None,
		out_broken: None,
		stdin: c.stdin.into(),
		reads: c.reads.into(),
		stdin_fails: c.stdin_fails,
		preemptions: 0,
		spawned: 0,
		sigints: c.sigints.into(),
		sig_wait: 0,
		through: c.through,
		calm: false,
	};
	s.next_sigint();
	s.next_countdown();
	let w = Arc::new(World { m: Mutex::new(s), done: Condvar::new(), io: crate::io::Streams::new() });
	start(&w, 0, f);
	let mut s = w.lock();
	while s.verdict.is_none() { s = w.done.wait(s).unwrap_or_else(PoisonError::into_inner); }
	let left = s.threads.iter().filter(|t| t.status != Status::Done).count();
	LEAKED.fetch_add(left, ::std::sync::atomic::Ordering::SeqCst);
	Outcome {
		verdict: s.verdict.clone().unwrap(),
		log: std::mem::take(&mut s.log),
		panics: std::mem::take(&mut s.panics),
		clock: s.clock,
		steps: s.steps,
		preemptions: s.preemptions,
	}
}

pub fn dur_ns(d: Duration) -> u64 { u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4) }

/// Real threads are reused across worlds.
mod pool {
	use ::std::sync::mpsc::{Sender, channel};
	use ::std::sync::{Arc, Mutex};

	type Job = Box<dyn FnOnce() + Send>;

	static IDLE: Mutex<Vec<Sender<Job>>> = Mutex::new(Vec::new());

	pub(super) fn run(job: Job) {
		let idle = IDLE.lock().unwrap().pop();
		let job = match idle {
			Some(tx) => match tx.send(job) { Ok(()) => return, Err(e) => e.0 },
			None => job,
		};
		let (tx, rx) = channel::<Job>();
		let tx = Arc::new(tx);
		::std::thread::Builder::new().stack_size(512 * 1024).spawn(move || {
			let mut job = job;
			loop {
				job();
				IDLE.lock().unwrap().push((*tx).clone());
				match rx.recv() { Ok(j) => job = j, Err(_) => return }
			}
		}).expect("spawn");
	}
}
