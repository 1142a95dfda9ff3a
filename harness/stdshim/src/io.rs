//! Virtual standard streams.

pub use ::std::io::*;
use ::std::io as real;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use ::std::sync::Arc;
use crate::virt::{self, Event, Fault, Res, World};

/// Per-world streams.
pub struct Streams {
	err: Owner,
	out: Owner,
	inp: Owner,
	/// The thread in the middle of writing to standard error, plus one.
	err_busy: AtomicUsize,
	out_buf: UnsafeCell<real::LineWriter<Device>>,
	inp_buf: UnsafeCell<real::BufReader<Device>>,
}
// Only ever touched by the thread holding the lock.
unsafe impl Send for Streams {}
unsafe impl Sync for Streams {}

impl Streams {
	pub(crate) fn new() -> Self {
		Self {
			err: Owner::default(), out: Owner::default(), inp: Owner::default(),
			err_busy: AtomicUsize::new(0),
			out_buf: UnsafeCell::new(real::LineWriter::new(Device(false))),
			inp_buf: UnsafeCell::new(real::BufReader::new(Device(false))),
		}
	}
}

/// Reentrant lock: thread id plus one, and depth.
#[derive(Default)]
struct Owner { who: AtomicUsize, depth: AtomicUsize }

impl Owner {
	fn take(&self, what: Option<bool>) {
		let Some((_, tid)) = virt::me() else { return; };
		virt::point();
		if self.who.load(SeqCst) == tid + 1 { self.depth.fetch_add(1, SeqCst); return; }
		let addr = (&raw const self.who) as usize;
		while self.who.load(SeqCst) != 0 { virt::block(Res::Lock(addr), None); }
		self.who.store(tid + 1, SeqCst);
		self.depth.store(1, SeqCst);
		if let Some(err) = what { virt::log(Event::Acquire { tid, err, clock: virt::now() }); }
	}
	fn give(&self, what: Option<bool>) {
		let Some((_, tid)) = virt::me() else { return; };
		if self.depth.fetch_sub(1, SeqCst) == 1 {
			self.who.store(0, SeqCst);
			if let Some(err) = what { virt::log(Event::Release { tid, err, clock: virt::now() }); }
			virt::unblock(Res::Lock((&raw const self.who) as usize), true);
		}
	}
}

/// The far end of a stream; true for standard error.
struct Device(bool);

impl real::Write for Device {
	fn write(&mut self, buf: &[u8]) -> Result<usize> {
		virt::point();
		let err = self.0;
		let Some((w, tid)) = virt::me() else { return Ok(buf.len()); };
		let mut s = w.lock();
		let f = if err { s.err_broken.or_else(|| s.err_faults.pop_front()) } else { s.out_broken.or_else(|| s.out_faults.pop_front()) };
		let n = match f.unwrap_or(Fault::None) {
			Fault::None => buf.len(),
			Fault::Short(n) => buf.len().min(n.max(1)),
			Fault::Zero => 0,
			Fault::Interrupted => return Err(ErrorKind::Interrupted.into()),
			Fault::BrokenPipe => { s.log.push(Event::Refused { tid, err }); return Err(ErrorKind::BrokenPipe.into()); },
			Fault::NoSpace => { s.log.push(Event::Refused { tid, err }); return Err(ErrorKind::StorageFull.into()); },
			Fault::WouldBlock => { s.log.push(Event::Refused { tid, err }); return Err(ErrorKind::WouldBlock.into()); },
		};
		if n == 0 && ! buf.is_empty() { s.log.push(Event::Refused { tid, err }); }
		if n != 0 {
			let clock = s.clock;
			s.log.push(Event::Write { tid, err, bytes: buf[..n].to_vec(), clock });
			if err && s.through { let _ = real::Write::write_all(&mut real::stderr(), &buf[..n]); }
		}
		Ok(n)
	}
	fn write_vectored(&mut self, bufs: &[real::IoSlice<'_>]) -> Result<usize> {
		let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
		if all.is_empty() { return Ok(0); }
		self.write(&all)
	}
	fn flush(&mut self) -> Result<()> { Ok(()) }
}

impl real::Read for Device {
	fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
		virt::point();
		let Some((w, _)) = virt::me() else { return Ok(0); };
		let mut s = w.lock();
		let want = s.reads.pop_front();
		if want == Some(0) { return Err(ErrorKind::Interrupted.into()); }
		if s.stdin.is_empty() && s.stdin_fails {
			s.log.push(Event::Read { bytes: 0 });
			return Err(ErrorKind::IsADirectory.into());
		}
		let n = buf.len().min(want.unwrap_or(usize::MAX)).min(s.stdin.len());
		for b in buf.iter_mut().take(n) { *b = s.stdin.pop_front().unwrap(); }
		s.log.push(Event::Read { bytes: n });
		Ok(n)
	}
}

fn world() -> Option<Arc<World>> { virt::me().map(|m| m.0) }

// ---------------------------------------------------------------- stderr

#[derive(Debug)]
pub struct Stderr(());
pub fn stderr() -> Stderr { Stderr(()) }

pub struct StderrLock<'a> { w: Option<Arc<World>>, _p: ::std::marker::PhantomData<&'a ()> }
impl fmt::Debug for StderrLock<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("StderrLock { .. }") } }
impl Stderr {
	pub fn lock(&self) -> StderrLock<'static> {
		let w = world();
		if let Some(w) = &w { w.io.err.take(Some(true)); }
		StderrLock { w, _p: ::std::marker::PhantomData }
	}
}
impl Drop for StderrLock<'_> { fn drop(&mut self) { if let Some(w) = &self.w { w.io.err.give(Some(true)); } } }
impl StderrLock<'_> {
	/// The lock is reentrant, but what it guards is a `RefCell`: a signal
	/// handler interrupting a write cannot write in turn.
	fn busy<T>(&self, f: impl FnOnce() -> T) -> T {
		let Some(w) = &self.w else { return f(); };
		let Some((_, tid)) = virt::me() else { return f(); };
		assert!(w.io.err_busy.load(SeqCst) != tid + 1, "already borrowed: standard error");
		w.io.err_busy.store(tid + 1, SeqCst);
		let r = f();
		w.io.err_busy.store(0, SeqCst);
		r
	}
}
impl Write for StderrLock<'_> {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.busy(|| Device(true).write(buf)) }
	fn write_vectored(&mut self, bufs: &[real::IoSlice<'_>]) -> Result<usize> { self.busy(|| Device(true).write_vectored(bufs)) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.busy(|| Device(true).write_all(buf)) }
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Write for Stderr {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.lock().write(buf) }
	fn write_vectored(&mut self, bufs: &[real::IoSlice<'_>]) -> Result<usize> { self.lock().write_vectored(bufs) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.lock().write_all(buf) }
	fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> Result<()> { self.lock().write_fmt(a) }
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Write for &Stderr {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.lock().write(buf) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.lock().write_all(buf) }
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
/// (`IsTerminal` is sealed, so the shim offers inherent methods instead.)
impl Stderr { pub fn is_terminal(&self) -> bool { virt::term_size().is_some() } }

// ---------------------------------------------------------------- stdout

#[derive(Debug)]
pub struct Stdout(());
pub fn stdout() -> Stdout { Stdout(()) }

pub struct StdoutLock<'a> { w: Option<Arc<World>>, _p: ::std::marker::PhantomData<&'a ()> }
impl fmt::Debug for StdoutLock<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("StdoutLock { .. }") } }
impl Stdout {
	pub fn lock(&self) -> StdoutLock<'static> {
		let w = world();
		if let Some(w) = &w { w.io.out.take(Some(false)); }
		StdoutLock { w, _p: ::std::marker::PhantomData }
	}
}
impl StdoutLock<'_> {
	fn buf(&mut self) -> Option<&mut real::LineWriter<Device>> { self.w.as_ref().map(|w| unsafe { &mut *w.io.out_buf.get() }) }
}
impl Drop for StdoutLock<'_> { fn drop(&mut self) { if let Some(w) = &self.w { w.io.out.give(Some(false)); } } }
impl Write for StdoutLock<'_> {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.buf().map_or(Ok(buf.len()), |b| b.write(buf)) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.buf().map_or(Ok(()), |b| b.write_all(buf)) }
	fn flush(&mut self) -> Result<()> { self.buf().map_or(Ok(()), |b| b.flush()) }
}
impl Write for Stdout {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.lock().write(buf) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.lock().write_all(buf) }
	fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> Result<()> { self.lock().write_fmt(a) }
	fn flush(&mut self) -> Result<()> { self.lock().flush() }
}
impl Write for &Stdout {
	fn write(&mut self, buf: &[u8]) -> Result<usize> { self.lock().write(buf) }
	fn write_all(&mut self, buf: &[u8]) -> Result<()> { self.lock().write_all(buf) }
	fn flush(&mut self) -> Result<()> { self.lock().flush() }
}
/// (See above.)
impl Stdout { pub fn is_terminal(&self) -> bool { false } }
impl StderrLock<'_> { pub fn is_terminal(&self) -> bool { virt::term_size().is_some() } }

// ---------------------------------------------------------------- stdin

#[derive(Debug)]
pub struct Stdin(());
pub fn stdin() -> Stdin { Stdin(()) }
pub struct StdinLock<'a> { w: Option<Arc<World>>, _p: ::std::marker::PhantomData<&'a ()> }
impl fmt::Debug for StdinLock<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("StdinLock { .. }") } }
impl Stdin {
	pub fn lock(&self) -> StdinLock<'static> {
		let w = world();
		if let Some(w) = &w { w.io.inp.take(None); }
		StdinLock { w, _p: ::std::marker::PhantomData }
	}
	pub fn read_line(&self, s: &mut String) -> Result<usize> { self.lock().read_line(s) }
	pub fn lines(self) -> Lines<StdinLock<'static>> { self.lock().lines() }
}
impl StdinLock<'_> {
	fn buf(&mut self) -> &mut real::BufReader<Device> {
		let w = self.w.as_ref().expect("stdin needs a virtual world");
		unsafe { &mut *w.io.inp_buf.get() }
	}
}
impl Drop for StdinLock<'_> { fn drop(&mut self) { if let Some(w) = &self.w { w.io.inp.give(None); } } }
impl Read for StdinLock<'_> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.buf().read(b) } }
impl BufRead for StdinLock<'_> {
	fn fill_buf(&mut self) -> Result<&[u8]> { self.buf().fill_buf() }
	fn consume(&mut self, n: usize) { self.buf().consume(n); }
}
impl Read for Stdin { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.lock().read(b) } }

/// For the printing macros.
pub fn must_print(a: fmt::Arguments<'_>, err: bool) {
	let r = if err { stderr().write_fmt(a) } else { stdout().write_fmt(a) };
	if let Err(e) = r { panic!("failed printing to {}: {e}", if err { "stderr" } else { "stdout" }); }
}
