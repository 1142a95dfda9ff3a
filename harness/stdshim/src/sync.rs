//! Virtual locks and atomics.

pub use ::std::sync::*;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool as RealBool, AtomicUsize as RealUsize, Ordering::SeqCst};
use ::std::time::Duration;
use crate::virt::{self, Res};

pub struct Mutex<T: ?Sized> { held: RealBool, poison: RealBool, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, panicking: bool }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
	pub const fn new(t: T) -> Self { Self { held: RealBool::new(false), poison: RealBool::new(false), data: UnsafeCell::new(t) } }
	pub fn into_inner(self) -> LockResult<T> {
		let p = self.poison.load(SeqCst);
		let d = self.data.into_inner();
		if p { Err(PoisonError::new(d)) } else { Ok(d) }
	}
}

impl<T: ?Sized> Mutex<T> {
	fn addr(&self) -> usize { (&raw const self.held) as usize }
	fn acquire(&self) {
		virt::point();
		while self.held.swap(true, SeqCst) { virt::block(Res::Lock(self.addr()), None); }
	}
	fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
		let g = MutexGuard { m: self, panicking: ::std::thread::panicking() };
		if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
	}
	pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { self.acquire(); self.guard() }
	pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
		virt::point();
		if self.held.swap(true, SeqCst) { return Err(TryLockError::WouldBlock); }
		self.guard().map_err(TryLockError::Poisoned)
	}
	pub fn is_poisoned(&self) -> bool { self.poison.load(SeqCst) }
	pub fn clear_poison(&self) { self.poison.store(false, SeqCst); }
	pub fn get_mut(&mut self) -> LockResult<&mut T> {
		if self.poison.load(SeqCst) { Err(PoisonError::new(self.data.get_mut())) } else { Ok(self.data.get_mut()) }
	}
	fn release(&self) {
		self.held.store(false, SeqCst);
		virt::unblock(Res::Lock(self.addr()), true);
	}
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Self::new(t) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex { .. }") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
	fn drop(&mut self) {
		if ! self.panicking && ::std::thread::panicking() { self.m.poison.store(true, SeqCst); }
		self.m.release();
	}
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }

#[derive(Default)]
pub struct Condvar { id: u8, _n: RealUsize }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar { .. }") } }

impl Condvar {
	pub const fn new() -> Self { Self { id: 0, _n: RealUsize::new(0) } }
	fn addr(&self) -> usize { (&raw const self.id) as usize }
	fn wait_until<'a, T>(&self, g: MutexGuard<'a, T>, deadline: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
		let m = g.m;
		// No scheduling point between the release and the wait: that is what
		// a condition variable guarantees.
		::std::mem::forget(g);
		m.release();
		let timed_out = virt::block(Res::Cond(self.addr()), deadline);
		while m.held.swap(true, SeqCst) { virt::block(Res::Lock(m.addr()), None); }
		(m.guard(), timed_out)
	}
	pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { self.wait_until(g, None).0 }
	pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
		while f(&mut *g) { g = self.wait(g)?; }
		Ok(g)
	}
	pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
		let (g, t) = self.wait_until(g, Some(virt::now().saturating_add(virt::dur_ns(d))));
		match g {
			Ok(g) => Ok((g, WaitTimeoutResult(t))),
			Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
		}
	}
	pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
		let end = virt::now().saturating_add(virt::dur_ns(d));
		loop {
			if ! f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
			if end <= virt::now() { return Ok((g, WaitTimeoutResult(true))); }
			let (r, t) = self.wait_until(g, Some(end));
			match r {
				Ok(x) => g = x,
				Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
			}
		}
	}
	pub fn notify_one(&self) { virt::point(); virt::unblock(Res::Cond(self.addr()), false); }
	pub fn notify_all(&self) { virt::point(); virt::unblock(Res::Cond(self.addr()), true); }
}

/// Readers-writer lock; `n` is the reader count, `usize::MAX` for a writer.
pub struct RwLock<T: ?Sized> { n: RealUsize, poison: RealBool, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
	pub const fn new(t: T) -> Self { Self { n: RealUsize::new(0), poison: RealBool::new(false), data: UnsafeCell::new(t) } }
	pub fn into_inner(self) -> LockResult<T> {
		let p = self.poison.load(SeqCst);
		let d = self.data.into_inner();
		if p { Err(PoisonError::new(d)) } else { Ok(d) }
	}
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { Self::new(t) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> RwLock<T> {
	fn addr(&self) -> usize { (&raw const self.n) as usize }
	pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
		virt::point();
		while self.n.load(SeqCst) == usize::MAX { virt::block(Res::Lock(self.addr()), None); }
		self.n.fetch_add(1, SeqCst);
		let g = RwLockReadGuard(self);
		if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
	}
	pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
		virt::point();
		while self.n.load(SeqCst) != 0 { virt::block(Res::Lock(self.addr()), None); }
		self.n.store(usize::MAX, SeqCst);
		let g = RwLockWriteGuard(self, ::std::thread::panicking());
		if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
	}
}
impl<T: ?Sized> RwLock<T> {
	pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
		virt::point();
		if self.n.load(SeqCst) == usize::MAX { return Err(TryLockError::WouldBlock); }
		self.n.fetch_add(1, SeqCst);
		let g = RwLockReadGuard(self);
		if self.poison.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(g))) } else { Ok(g) }
	}
	pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
		virt::point();
		if self.n.load(SeqCst) != 0 { return Err(TryLockError::WouldBlock); }
		self.n.store(usize::MAX, SeqCst);
		let g = RwLockWriteGuard(self, ::std::thread::panicking());
		if self.poison.load(SeqCst) { Err(TryLockError::Poisoned(PoisonError::new(g))) } else { Ok(g) }
	}
	pub fn is_poisoned(&self) -> bool { self.poison.load(SeqCst) }
	pub fn clear_poison(&self) { self.poison.store(false, SeqCst); }
	pub fn get_mut(&mut self) -> LockResult<&mut T> {
		if self.poison.load(SeqCst) { Err(PoisonError::new(self.data.get_mut())) } else { Ok(self.data.get_mut()) }
	}
}
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock { .. }") } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.data.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0.n.fetch_sub(1, SeqCst); virt::unblock(Res::Lock(self.0.addr()), true); } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
	fn drop(&mut self) {
		if ! self.1 && ::std::thread::panicking() { self.0.poison.store(true, SeqCst); }
		self.0.n.store(0, SeqCst);
		virt::unblock(Res::Lock(self.0.addr()), true);
	}
}

/// A cell set once; whoever comes second waits.
pub struct OnceLock<T> { init: Mutex<()>, cell: ::std::sync::OnceLock<T> }
impl<T> OnceLock<T> {
	pub const fn new() -> Self { Self { init: Mutex::new(()), cell: ::std::sync::OnceLock::new() } }
	pub fn get(&self) -> Option<&T> { virt::point(); self.cell.get() }
	pub fn get_mut(&mut self) -> Option<&mut T> { self.cell.get_mut() }
	pub fn set(&self, t: T) -> Result<(), T> { let _g = self.init.lock().unwrap_or_else(PoisonError::into_inner); self.cell.set(t) }
	pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
		if let Some(t) = self.get() { return t; }
		let _g = self.init.lock().unwrap_or_else(PoisonError::into_inner);
		if self.cell.get().is_none() {
			let t = f();
			let _ = self.cell.set(t);
		}
		self.cell.get().expect("set")
	}
	pub fn take(&mut self) -> Option<T> { self.cell.take() }
	pub fn into_inner(self) -> Option<T> { self.cell.into_inner() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.cell.fmt(f) } }

/// Something done once; whoever comes second waits.
#[derive(Debug, Default)]
pub struct Once { done: OnceLock<()> }
impl Once {
	pub const fn new() -> Self { Self { done: OnceLock::new() } }
	pub fn call_once<F: FnOnce()>(&self, f: F) { self.done.get_or_init(f); }
	pub fn is_completed(&self) -> bool { self.done.get().is_some() }
	pub fn wait(&self) { let _g = self.done.init.lock(); }
}

/// A value made on first use.
pub struct LazyLock<T, F = fn() -> T> { once: OnceLock<T>, make: ::std::sync::Mutex<Option<F>> }
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
	pub const fn new(f: F) -> Self { Self { once: OnceLock::new(), make: ::std::sync::Mutex::new(Some(f)) } }
	pub fn force(this: &Self) -> &T {
		this.once.get_or_init(|| { let f = this.make.lock().unwrap().take().expect("poisoned"); f() })
	}
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }

pub mod atomic {
	//! Atomics with a scheduling point before every operation.

	pub use ::std::sync::atomic::*;
	use ::std::sync::atomic as real;
	use crate::virt::point;

	macro_rules! atomic {
		($($ty:ident $prim:ident),+ $(,)?) => ($(
			#[derive(Debug, Default)]
			pub struct $ty(real::$ty);
			impl From<$prim> for $ty { fn from(v: $prim) -> Self { Self::new(v) } }
			impl $ty {
				pub const fn new(v: $prim) -> Self { Self(real::$ty::new(v)) }
				pub fn load(&self, o: Ordering) -> $prim { point(); self.0.load(o) }
				pub fn store(&self, v: $prim, o: Ordering) { point(); self.0.store(v, o); }
				pub fn swap(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.swap(v, o) }
				pub fn compare_exchange(&self, a: $prim, b: $prim, s: Ordering, f: Ordering) -> Result<$prim, $prim> { point(); self.0.compare_exchange(a, b, s, f) }
				pub fn compare_exchange_weak(&self, a: $prim, b: $prim, s: Ordering, f: Ordering) -> Result<$prim, $prim> { point(); self.0.compare_exchange(a, b, s, f) }
				pub fn fetch_add(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_add(v, o) }
				pub fn fetch_sub(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_sub(v, o) }
				pub fn fetch_and(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_and(v, o) }
				pub fn fetch_nand(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_nand(v, o) }
				pub fn fetch_or(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_or(v, o) }
				pub fn fetch_xor(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_xor(v, o) }
				pub fn fetch_max(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_max(v, o) }
				pub fn fetch_min(&self, v: $prim, o: Ordering) -> $prim { point(); self.0.fetch_min(v, o) }
				pub fn fetch_update<F: FnMut($prim) -> Option<$prim>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$prim, $prim> {
					let mut prev = self.load(fetch);
					while let Some(next) = f(prev) {
						match self.compare_exchange_weak(prev, next, set, fetch) {
							Ok(x) => return Ok(x),
							Err(p) => prev = p,
						}
					}
					Err(prev)
				}
				pub fn try_update<F: FnMut($prim) -> Option<$prim>>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$prim, $prim> { self.fetch_update(set, fetch, f) }
				pub fn update<F: FnMut($prim) -> $prim>(&self, set: Ordering, fetch: Ordering, mut f: F) -> $prim {
					self.fetch_update(set, fetch, |v| Some(f(v))).unwrap_or_else(|v| v)
				}
				pub fn get_mut(&mut self) -> &mut $prim { self.0.get_mut() }
				pub fn into_inner(self) -> $prim { self.0.into_inner() }
			}
		)+);
	}
	#[derive(Debug, Default)]
	pub struct AtomicBool(real::AtomicBool);
	impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
	impl AtomicBool {
		pub const fn new(v: bool) -> Self { Self(real::AtomicBool::new(v)) }
		pub fn load(&self, o: Ordering) -> bool { point(); self.0.load(o) }
		pub fn store(&self, v: bool, o: Ordering) { point(); self.0.store(v, o); }
		pub fn swap(&self, v: bool, o: Ordering) -> bool { point(); self.0.swap(v, o) }
		pub fn compare_exchange(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { point(); self.0.compare_exchange(a, b, s, f) }
		pub fn compare_exchange_weak(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { point(); self.0.compare_exchange(a, b, s, f) }
		pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_and(v, o) }
		pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_or(v, o) }
		pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_xor(v, o) }
		pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_nand(v, o) }
		pub fn fetch_not(&self, o: Ordering) -> bool { point(); self.0.fetch_xor(true, o) }
		pub fn fetch_update<F: FnMut(bool) -> Option<bool>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<bool, bool> {
			let mut prev = self.load(fetch);
			while let Some(next) = f(prev) {
				match self.compare_exchange_weak(prev, next, set, fetch) {
					Ok(x) => return Ok(x),
					Err(p) => prev = p,
				}
			}
			Err(prev)
		}
		pub fn try_update<F: FnMut(bool) -> Option<bool>>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<bool, bool> { self.fetch_update(set, fetch, f) }
		pub fn update<F: FnMut(bool) -> bool>(&self, set: Ordering, fetch: Ordering, mut f: F) -> bool {
			self.fetch_update(set, fetch, |v| Some(f(v))).unwrap_or_else(|v| v)
		}
		pub fn get_mut(&mut self) -> &mut bool { self.0.get_mut() }
		pub fn into_inner(self) -> bool { self.0.into_inner() }
	}
	atomic!(
		AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
		AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,
	);
}

pub mod mpsc {
	//! Virtual channels.

	pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
	use ::std::collections::VecDeque;
	use ::std::fmt;
	use ::std::sync::Arc;
	use ::std::time::Duration;
	use super::{Condvar, Mutex, PoisonError};
	use crate::virt;

	struct Inner<T> { queue: VecDeque<T>, senders: usize, receiver: bool, cap: Option<usize> }
	struct Chan<T> { inner: Mutex<Inner<T>>, cv: Condvar }
	impl<T> Chan<T> {
		fn lock(&self) -> super::MutexGuard<'_, Inner<T>> { self.inner.lock().unwrap_or_else(PoisonError::into_inner) }
		fn new(cap: Option<usize>) -> Arc<Self> {
			Arc::new(Self { inner: Mutex::new(Inner { queue: VecDeque::new(), senders: 1, receiver: true, cap }), cv: Condvar::new() })
		}
		fn send(&self, t: T) -> Result<(), SendError<T>> {
			let mut g = self.lock();
			// (A rendezvous channel is treated like one slot.)
			while g.receiver && g.cap.is_some_and(|c| c.max(1) <= g.queue.len()) { g = self.cv.wait(g).unwrap_or_else(PoisonError::into_inner); }
			if ! g.receiver { return Err(SendError(t)); }
			g.queue.push_back(t);
			drop(g);
			self.cv.notify_all();
			Ok(())
		}
		fn add(&self) { self.lock().senders += 1; }
		fn sub(&self) { self.lock().senders -= 1; self.cv.notify_all(); }
	}

	macro_rules! sender {
		($ty:ident) => (
			pub struct $ty<T>(Arc<Chan<T>>);
			impl<T> $ty<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
			impl<T> Clone for $ty<T> { fn clone(&self) -> Self { self.0.add(); Self(Arc::clone(&self.0)) } }
			impl<T> Drop for $ty<T> { fn drop(&mut self) { self.0.sub(); } }
			impl<T> fmt::Debug for $ty<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($ty)) } }
		);
	}
	sender!(Sender);
	sender!(SyncSender);
	impl<T> SyncSender<T> {
		pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
			let mut g = self.0.lock();
			if ! g.receiver { return Err(TrySendError::Disconnected(t)); }
			if g.cap.is_some_and(|c| c.max(1) <= g.queue.len()) { return Err(TrySendError::Full(t)); }
			g.queue.push_back(t);
			drop(g);
			self.0.cv.notify_all();
			Ok(())
		}
	}

	pub struct Receiver<T>(Arc<Chan<T>>);
	impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
	impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.lock().receiver = false; self.0.cv.notify_all(); } }
	impl<T> Receiver<T> {
		fn get(&self, end: Option<u64>) -> Result<T, RecvTimeoutError> {
			let mut g = self.0.lock();
			loop {
				if let Some(t) = g.queue.pop_front() { drop(g); self.0.cv.notify_all(); return Ok(t); }
				if g.senders == 0 { return Err(RecvTimeoutError::Disconnected); }
				g = match end {
					None => self.0.cv.wait(g).unwrap_or_else(PoisonError::into_inner),
					Some(e) => {
						let now = virt::now();
						if e <= now { return Err(RecvTimeoutError::Timeout); }
						self.0.cv.wait_timeout(g, Duration::from_nanos(e - now)).unwrap_or_else(PoisonError::into_inner).0
					},
				};
			}
		}
		pub fn recv(&self) -> Result<T, RecvError> { self.get(None).map_err(|_| RecvError) }
		pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> { self.get(Some(virt::now().saturating_add(virt::dur_ns(d)))) }
		pub fn try_recv(&self) -> Result<T, TryRecvError> {
			self.get(Some(0)).map_err(|e| if e == RecvTimeoutError::Timeout { TryRecvError::Empty } else { TryRecvError::Disconnected })
		}
		pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
		pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
	}
	pub struct Iter<'a, T>(&'a Receiver<T>);
	impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
	pub struct TryIter<'a, T>(&'a Receiver<T>);
	impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }

	pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = Chan::new(None); (Sender(Arc::clone(&c)), Receiver(c)) }
	pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = Chan::new(Some(n)); (SyncSender(Arc::clone(&c)), Receiver(c)) }
}
