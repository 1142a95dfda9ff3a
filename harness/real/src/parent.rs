//! Running the child on a pseudo-terminal and watching what it draws.

use crate::child::{SYNC, Script};
use crate::frames::{self, Frame};
use hc::vt::Term;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, channel};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// How long anything may take that should take no time at all. (The clocks
/// are real and the machine may be busy.)
fn patience() -> Duration { if HURRY.load(Relaxed) { Duration::from_secs(4) } else { Duration::from_secs(15) } }

/// Something has gone wrong already, so this is about finding a smaller case.
pub static HURRY: AtomicBool = AtomicBool::new(false);

/// What went wrong, and whether more time might have helped.
#[derive(Debug)]
pub enum Fail { Sure(String), Late(String) }

pub struct Session {
	pub script: Script,
	child: Child,
	stdin: Option<ChildStdin>,
	master: File,
	lines: Receiver<String>,
	pub term: Term,
	pub raw: Vec<u8>,
	pub size: (u16, u16),
	/// How many lines have been heard, and how many announced on the terminal
	/// (as far as looked at).
	heard: usize,
	synced: (usize, usize),
	/// No more output will come.
	pub eof: bool,
}

fn set_size(fd: i32, size: (u16, u16)) {
	let w = libc::winsize { ws_row: size.1, ws_col: size.0, ws_xpixel: 0, ws_ypixel: 0 };
	assert_eq!(unsafe { libc::ioctl(fd, libc::TIOCSWINSZ, &w) }, 0, "TIOCSWINSZ");
}

impl Session {
	pub fn start(script: &Script, size: (u16, u16)) -> Self {
		let (mut m, mut s) = (0, 0);
		unsafe {
			assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()), 0, "openpty");
			libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
			libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
			let mut t: libc::termios = std::mem::zeroed();
			libc::tcgetattr(s, &mut t);
			libc::cfmakeraw(&mut t);
			libc::tcsetattr(s, libc::TCSANOW, &t);
			libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
		}
		let master = unsafe { File::from(OwnedFd::from_raw_fd(m)) };
		let slave = unsafe { OwnedFd::from_raw_fd(s) };
		set_size(m, size);
		let mut cmd = Command::new(std::env::current_exe().unwrap());
		cmd.env("REAL_CHILD", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(slave));
		unsafe {
			cmd.pre_exec(|| {
				libc::setsid();
				libc::ioctl(2, libc::TIOCSCTTY, 0);
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				Ok(())
			});
		}
		let mut child = cmd.spawn().expect("spawn");
		drop(cmd);
		let mut stdin = child.stdin.take();
		if let Some(s) = &mut stdin {
			// (The script comes first; it may be too long for an argument.)
			let _ = s.write_all(format!("{}\n", serde_json::to_string(script).unwrap()).as_bytes());
		}
		let out = child.stdout.take().unwrap();
		let (tx, lines) = channel();
		std::thread::spawn(move || {
			use std::io::BufRead;
			for l in std::io::BufReader::new(out).lines() {
				let Ok(l) = l else { break; };
				if tx.send(l).is_err() { break; }
			}
		});
		Self { script: script.clone(), child, stdin, master, lines, term: Term::new(usize::from(size.0), usize::from(size.1)), raw: Vec::new(), size, heard: 0, synced: (0, 0), eof: false }
	}

	/// Take in what there is, waiting a little if there is nothing.
	pub fn pump(&mut self) {
		let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
		let n = unsafe { libc::poll(&mut p, 1, 5) };
		if n <= 0 { return; }
		let mut buf = [0_u8; 16384];
		match self.master.read(&mut buf) {
			Ok(0) => { self.eof = true; },
			Ok(n) => { self.term.feed(&buf[..n]); self.raw.extend_from_slice(&buf[..n]); },
			Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::Interrupted => {},
			Err(_) => { self.eof = true; },
		}
	}

	/// Take in everything that has been written.
	pub fn drain(&mut self) { while { let n = self.raw.len(); self.pump(); self.raw.len() != n } {} }

	/// Let some time pass.
	pub fn linger(&mut self, ms: u64) {
		let t0 = Instant::now();
		while t0.elapsed() < Duration::from_millis(ms) { self.pump(); }
	}

	/// Wait for a line on the child's standard output.
	pub fn line(&mut self) -> Result<String, Fail> {
		let t0 = Instant::now();
		loop {
			if let Ok(l) = self.lines.try_recv() {
				// What was written to the terminal before may still be on its way.
				self.heard += 1;
				while ! self.caught_up() && ! self.eof {
					if patience() < t0.elapsed() { return Err(Fail::Late("[Stuck] nothing more arrives at the terminal".to_owned())); }
					self.pump();
				}
				return Ok(l);
			}
			if self.eof {
				return self.lines.recv_timeout(Duration::from_millis(500)).map_err(|_| Fail::Sure(format!("the program ended early, with status {:?}; the terminal shows {:?}", self.child.wait().ok().map(status), self.term.screen())));
			}
			if patience() < t0.elapsed() { return Err(Fail::Late("[Stuck] the program makes no progress".to_owned())); }
			self.pump();
		}
	}

	fn caught_up(&mut self) -> bool {
		let (n, at) = &mut self.synced;
		while let Some(k) = self.raw[*at..].windows(SYNC.len()).position(|w| w == SYNC) {
			*n += 1;
			*at += k + SYNC.len();
		}
		*at = (*at).max(self.raw.len().saturating_sub(SYNC.len() - 1));
		*n >= self.heard
	}

	pub fn go(&mut self) { if let Some(s) = &mut self.stdin { let _ = s.write_all(b"go\n").and_then(|()| s.flush()); } }

	/// Wait until something holds of what is on the screen.
	pub fn until<T>(&mut self, mut f: impl FnMut(&Self) -> Result<T, String>) -> Result<T, Fail> {
		let t0 = Instant::now();
		loop {
			match f(self) {
				Ok(x) => return Ok(x),
				Err(e) => if self.eof || patience() < t0.elapsed() { return Err(Fail::Late(e)); },
			}
			self.pump();
		}
	}

	pub fn signal(&self, sig: i32) { unsafe { libc::kill(i32::try_from(self.child.id()).unwrap(), sig); } }

	pub fn resize(&mut self, size: (u16, u16)) {
		// (The kernel tells the child.)
		self.drain();
		self.size = size;
		self.term.resize(usize::from(size.0), usize::from(size.1));
		set_size(self.master.as_raw_fd(), size);
	}

	/// Just the live area, as if on a screen of its own.
	pub fn live(&self) -> (Term, Frame) {
		let t = self.term.live_area();
		let f = frames::parse(&t);
		(t, f)
	}

	/// Wait for the end; the exit status (or 128 plus the signal).
	pub fn wait(&mut self) -> Result<i32, Fail> {
		self.stdin = None;
		let t0 = Instant::now();
		let mut st = None;
		loop {
			if st.is_none() { st = self.child.try_wait().ok().flatten().map(status); }
			if self.eof && let Some(s) = st { return Ok(s); }
			if patience() < t0.elapsed() { return st.ok_or_else(|| Fail::Late("[Stuck] the program does not end".to_owned())); }
			if self.eof { std::thread::sleep(Duration::from_millis(2)); } else { self.pump(); }
		}
	}

	pub fn alive(&mut self) -> bool { self.child.try_wait().ok().flatten().is_none() }
}

fn status(s: std::process::ExitStatus) -> i32 { s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0)) }

impl Drop for Session {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}
