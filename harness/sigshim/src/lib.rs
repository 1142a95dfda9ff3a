//! Stand-in for the `signal-hook` crate: actions are run by the virtual world,
//! on whichever of its threads is running when the signal arrives.

pub use stdshim::signal::SigId;

pub mod consts {
	pub use libc::{SIGABRT, SIGALRM, SIGCHLD, SIGCONT, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGUSR1, SIGUSR2, SIGWINCH};
	pub const TERM_SIGNALS: &[i32] = &[SIGTERM, SIGQUIT, SIGINT];
	pub const FORBIDDEN: &[i32] = &[libc::SIGKILL, libc::SIGSTOP, libc::SIGILL, libc::SIGFPE, libc::SIGSEGV];
	pub mod signal { pub use super::{SIGABRT, SIGALRM, SIGCHLD, SIGCONT, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGUSR1, SIGUSR2, SIGWINCH}; }
}

pub mod low_level {
	use std::io::Error;
	use stdshim::signal::{self, SigId};

	/// # Safety
	/// (The real one has requirements.)
	pub unsafe fn register<F: Fn() + Send + Sync + 'static>(sig: i32, f: F) -> Result<SigId, Error> { Ok(signal::register(sig, Box::new(f))) }
	pub fn unregister(id: SigId) -> bool { signal::unregister(id) }
	pub fn raise(sig: i32) -> Result<(), Error> { signal::deliver(sig); Ok(()) }
	pub fn exit(code: i32) -> ! {
		// (The other threads keep running until the very end.)
		stdshim::virt::point();
		stdshim::virt::exit_world(code)
	}
	pub fn abort() -> ! { stdshim::virt::exit_world(134) }
	pub fn emulate_default_handler(sig: i32) -> Result<(), Error> {
		match sig {
			libc::SIGCHLD | libc::SIGCONT | libc::SIGWINCH | libc::SIGURG => Ok(()),
			_ => stdshim::virt::exit_world(128 + sig),
		}
	}
	pub fn signal_name(sig: i32) -> Option<&'static str> {
		match sig { libc::SIGINT => Some("SIGINT"), libc::SIGTERM => Some("SIGTERM"), libc::SIGWINCH => Some("SIGWINCH"), _ => None }
	}
}

pub mod flag {
	use std::io::Error;
	use std::sync::Arc;
	use stdshim::signal::{self, SigId};
	use stdshim::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

	pub fn register(sig: i32, flag: Arc<AtomicBool>) -> Result<SigId, Error> { Ok(signal::register(sig, Box::new(move || flag.store(true, SeqCst)))) }
	pub fn register_usize(sig: i32, flag: Arc<AtomicUsize>, value: usize) -> Result<SigId, Error> { Ok(signal::register(sig, Box::new(move || flag.store(value, SeqCst)))) }
	pub fn register_conditional_shutdown(sig: i32, status: i32, flag: Arc<AtomicBool>) -> Result<SigId, Error> {
		Ok(signal::register(sig, Box::new(move || if flag.load(SeqCst) { super::low_level::exit(status) })))
	}
	pub fn register_conditional_default(sig: i32, flag: Arc<AtomicBool>) -> Result<SigId, Error> {
		Ok(signal::register(sig, Box::new(move || if flag.load(SeqCst) { let _ = super::low_level::emulate_default_handler(sig); })))
	}
}
