//! Running the program with its streams tied to memory files.

use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{SystemTime, UNIX_EPOCH};

/// Where an output stream goes.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sink {
	/// Kept and compared.
	Mem,
	/// Thrown away.
	Null,
	/// No space left.
	Full,
	/// A pipe nobody reads.
	Broken,
	/// Not open at all.
	Closed,
	/// A file that cannot be written to.
	ReadOnly,
}

/// Where standard input comes from.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Source { File, Pipe, Dir, Closed, WriteOnly }

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Env { pub out: Sink, pub err: Sink, pub inp: Source }
impl Env { pub const PLAIN: Self = Self { out: Sink::Mem, err: Sink::Mem, inp: Source::File }; }

#[derive(Debug)]
pub struct Got {
	/// Exit status.
	pub code: i32,
	/// (Empty unless kept.)
	pub out: Vec<u8>,
	pub err: Vec<u8>,
	/// How much of the input file was read.
	pub read: u64,
	/// Clock before and after, in seconds.
	pub from: i64,
	pub until: i64,
}

const MAX_OUT: u64 = 16 << 20;

/// Children may not write without end.
pub fn limits() {
	let lim = libc::rlimit { rlim_cur: MAX_OUT * 4, rlim_max: MAX_OUT * 4 };
	unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &lim); }
	let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
	unsafe { libc::setrlimit(libc::RLIMIT_CORE, &none); }
}

fn mem() -> File { unsafe { File::from(OwnedFd::from_raw_fd(libc::memfd_create(c"io".as_ptr(), libc::MFD_CLOEXEC))) } }

fn pipe() -> (File, File) {
	let mut p = [0_i32; 2];
	assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
	unsafe { (File::from(OwnedFd::from_raw_fd(p[0])), File::from(OwnedFd::from_raw_fd(p[1]))) }
}

fn sink(s: Sink, keep: &File) -> Stdio {
	match s {
		Sink::Mem => keep.try_clone().unwrap().into(),
		Sink::Null | Sink::Closed => Stdio::null(),
		Sink::Full => File::options().write(true).open("/dev/full").unwrap().into(),
		Sink::Broken => pipe().1.into(),
		Sink::ReadOnly => File::open("/dev/null").unwrap().into(),
	}
}

fn now() -> i64 { SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64) }

/// The program.
pub fn exe() -> OsString { std::env::var_os("FYI_BIN").expect("FYI_BIN") }

/// Run `fyi` with some arguments.
pub fn fyi<S: AsRef<[u8]>>(args: &[S], input: &[u8], env: &Env) -> Result<Got, String> {
	let (mut out, mut err, mut inp) = (mem(), mem(), mem());
	let mut cmd = Command::new(exe());
	cmd.env_clear();
	cmd.args(args.iter().map(|a| OsStr::from_bytes(a.as_ref())));
	cmd.stdout(sink(env.out, &out)).stderr(sink(env.err, &err));
	let mut feed = None;
	match env.inp {
		Source::File | Source::Closed => {
			inp.write_all(input).unwrap();
			inp.seek(SeekFrom::Start(0)).unwrap();
			cmd.stdin(inp.try_clone().unwrap());
		},
		Source::Pipe => {
			let (r, w) = pipe();
			// (Cases are far smaller than a pipe's buffer.)
			feed = Some(w);
			cmd.stdin(r);
		},
		Source::Dir => { cmd.stdin(File::open("/").unwrap()); },
		Source::WriteOnly => { cmd.stdin(File::options().write(true).open("/dev/null").unwrap()); },
	}
	let close: Vec<i32> = [(env.inp == Source::Closed, 0), (env.out == Sink::Closed, 1), (env.err == Sink::Closed, 2)].into_iter().filter(|x| x.0).map(|x| x.1).collect();
	if ! close.is_empty() {
		unsafe { cmd.pre_exec(move || { for c in &close { libc::close(*c); } Ok(()) }); }
	}
	if let Some(mut w) = feed { w.write_all(input).unwrap(); }
	let from = now();
	let mut child = cmd.spawn().map_err(|e| format!("cannot start fyi: {e}"))?;
	drop(cmd);
	// Nothing here takes long: spinning is a finding, not a timeout.
	let cpu = libc::rlimit { rlim_cur: 10, rlim_max: 20 };
	unsafe { libc::prlimit(child.id() as i32, libc::RLIMIT_CPU, &cpu, std::ptr::null_mut()); }
	let fsize = libc::rlimit { rlim_cur: MAX_OUT, rlim_max: MAX_OUT };
	unsafe { libc::prlimit(child.id() as i32, libc::RLIMIT_FSIZE, &fsize, std::ptr::null_mut()); }
	let mem = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
	unsafe { libc::prlimit(child.id() as i32, libc::RLIMIT_AS, &mem, std::ptr::null_mut()); }
	let st = child.wait().unwrap();
	let until = now();
	let read = unsafe { libc::lseek(inp.as_raw_fd(), 0, libc::SEEK_CUR) } as u64;
	let mut take = |f: &mut File| {
		let mut v = Vec::new();
		f.seek(SeekFrom::Start(0)).unwrap();
		f.read_to_end(&mut v).unwrap();
		v
	};
	let (out, err) = (take(&mut out), take(&mut err));
	let shown = || format!("; stdout {}, stderr {}", show(&out), show(&err));
	match st.signal() {
		Some(libc::SIGXFSZ) => return Err(format!("the output never ends{}", shown())),
		Some(libc::SIGXCPU | libc::SIGKILL) => return Err(format!("the program never ends{}", shown())),
		Some(s) => return Err(format!("killed by signal {s}{}", shown())),
		None => {},
	}
	let code = st.code().unwrap_or(-1);
	if code == 101 && String::from_utf8_lossy(&err).contains("panicked") { return Err(format!("panicked{}", shown())); }
	Ok(Got { code, out, err, read, from, until })
}

pub fn show(b: &[u8]) -> String {
	let s = String::from_utf8_lossy(b);
	let mut t: String = s.chars().take(600).collect::<String>().escape_debug().to_string();
	if 600 < s.chars().count() { t.push('…'); }
	format!("\"{t}\"")
}

/// Local time, as the C library sees it.
pub fn stamp(secs: i64) -> String {
	let mut tm: libc::tm = unsafe { std::mem::zeroed() };
	let t: libc::time_t = secs;
	unsafe { libc::localtime_r(&t, &mut tm); }
	format!(
		"\x1b[2m[\x1b[0;34m{:04}-{:02}-{:02} {:02}:{:02}:{:02}\x1b[0;2m]\x1b[0m ",
		tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
	)
}
