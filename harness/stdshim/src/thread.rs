//! Virtual threads.

pub use ::std::thread::*;
use ::std::any::Any;
use ::std::cell::Cell;
use ::std::io;
use ::std::panic::{AssertUnwindSafe, catch_unwind};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;
use crate::virt::{self, Res};

type Slot<T> = Arc<Mutex<Option<Result<T>>>>;

#[derive(Debug, Clone)]
pub struct Thread { tid: usize, name: Option<String> }

impl Thread {
	pub fn unpark(&self) { virt::point(); virt::unpark(self.tid); }
	pub fn name(&self) -> Option<&str> { self.name.as_deref() }
	pub fn id(&self) -> usize { self.tid }
}

pub struct JoinHandle<T> { slot: Slot<T>, thread: Thread }

impl<T> ::std::fmt::Debug for JoinHandle<T> {
	fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("JoinHandle { .. }") }
}

impl<T> JoinHandle<T> {
	pub fn join(self) -> Result<T> {
		virt::point();
		while ! virt::is_done(self.thread.tid) { virt::block(Res::Join(self.thread.tid), None); }
		let r = self.slot.lock().unwrap().take();
		r.unwrap_or_else(|| Err(Box::new("thread did not run") as Box<dyn Any + Send>))
	}
	pub fn is_finished(&self) -> bool { virt::point(); virt::is_done(self.thread.tid) }
	pub fn thread(&self) -> &Thread { &self.thread }
}

thread_local! { static HARNESS: Cell<bool> = const { Cell::new(false) }; }

fn go<F, T>(f: F, name: Option<String>) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
	let slot: Slot<T> = Arc::new(Mutex::new(None));
	let mine = Arc::clone(&slot);
	let library = ! HARNESS.with(Cell::get);
	let tid = virt::spawn_in(library, move || {
		let r = catch_unwind(AssertUnwindSafe(f));
		*mine.lock().unwrap() = Some(r);
	}).expect("threads need a virtual world");
	JoinHandle { slot, thread: Thread { tid, name } }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static { go(f, None) }

/// Spawn one of the harness's own threads.
pub fn spawn_harness<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
	HARNESS.with(|h| h.set(true));
	let j = go(f, None);
	HARNESS.with(|h| h.set(false));
	j
}

#[derive(Debug, Default)]
pub struct Builder { name: Option<String> }
impl Builder {
	pub fn new() -> Self { Self::default() }
	pub fn name(mut self, n: String) -> Self { self.name = Some(n); self }
	pub fn stack_size(self, _: usize) -> Self { self }
	pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
	where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(go(f, self.name)) }
}

pub fn current() -> Thread { Thread { tid: virt::me().map_or(0, |m| m.1), name: None } }
pub fn sleep(d: Duration) { virt::sleep_ns(virt::dur_ns(d)); }
pub fn yield_now() { virt::point(); }
pub fn park() { virt::park(None); }
pub fn park_timeout(d: Duration) { virt::park(Some(virt::now().saturating_add(virt::dur_ns(d)))); }
