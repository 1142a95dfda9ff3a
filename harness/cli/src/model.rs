//! What a command line means.

use hc::colors;

/// Commands other than `blank`: (command, built-in prefix).
pub fn commands() -> Vec<&'static str> {
	let mut v: Vec<&str> = colors::KINDS.iter().map(|k| k.1).collect();
	v.extend(["blank", "print"]);
	v.sort_unstable();
	v
}

/// The message to print.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Text { pub indent: bool, pub stamp: bool, pub prefix: String, pub msg: String }

impl Text {
	pub fn render(&self, stamp: &str) -> String {
		format!("{}{}{}{}\n", if self.indent { "    " } else { "" }, if self.stamp { stamp } else { "" }, self.prefix, self.msg)
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Meaning {
	/// Main help (`None`) or a command's.
	Help(Option<String>),
	Version,
	Blank { stderr: bool, count: u128 },
	Print { text: Text, stderr: bool, exit: u8 },
	Confirm { text: Text, yes: bool },
	/// Something other than options and one message.
	Invalid(String),
	Missing,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Key { Flag(&'static str), Value(&'static str) }

/// An argument: known key with its value, or something else.
enum Arg { Flag(&'static str), Value(&'static str, String), Other(String), Bad }

const MSG: &[Key] = &[
	Key::Flag("-h"), Key::Flag("--help"), Key::Flag("-i"), Key::Flag("--indent"), Key::Flag("--stderr"), Key::Flag("-t"), Key::Flag("--timestamp"),
	Key::Flag("-y"), Key::Flag("--yes"), Key::Value("-c"), Key::Value("--prefix-color"), Key::Value("-e"), Key::Value("--exit"), Key::Value("-p"), Key::Value("--prefix"),
];
const BLANK: &[Key] = &[Key::Flag("-h"), Key::Flag("--help"), Key::Flag("--stderr"), Key::Value("-c"), Key::Value("--count")];

fn find(keys: &[Key], s: &str) -> Option<(Key, Option<String>)> {
	for k in keys {
		let (Key::Flag(n) | Key::Value(n)) = k;
		if *n == s { return Some((*k, None)); }
		let rest = if n.len() == 2 { s.strip_prefix(n).map(|r| r.strip_prefix('=').unwrap_or(r)) } else { s.strip_prefix(n).and_then(|r| r.strip_prefix('=')) };
		if let Some(r) = rest { return Some((*k, Some(r.to_owned()))); }
	}
	None
}

fn split(keys: &[Key], args: &[Vec<u8>]) -> Vec<Arg> {
	let mut out = Vec::new();
	let mut i = 0;
	while i < args.len() {
		let Ok(s) = std::str::from_utf8(&args[i]) else { out.push(Arg::Bad); i += 1; continue; };
		i += 1;
		if s.is_empty() { continue; }
		if s == "--" { break; }
		match find(keys, s) {
			Some((Key::Flag(k), _)) => out.push(Arg::Flag(k)),
			Some((Key::Value(k), Some(v))) => out.push(Arg::Value(k, v)),
			Some((Key::Value(k), None)) => {
				// A value is missing: nothing is left to read anyway.
				let Some(v) = args.get(i) else { break; };
				i += 1;
				match std::str::from_utf8(v) {
					Ok(v) => out.push(Arg::Value(k, v.to_owned())),
					Err(_) => out.push(Arg::Bad),
				}
			},
			None => out.push(Arg::Other(s.to_owned())),
		}
	}
	out
}

fn num(s: &str) -> Option<u128> {
	let s = s.trim();
	if s.is_empty() || ! s.bytes().all(|b| b.is_ascii_digit()) { return None; }
	let s = s.trim_start_matches('0');
	if s.is_empty() { Some(0) } else { s.parse().ok() }
}

pub fn meaning(args: &[Vec<u8>]) -> Meaning {
	let Some(first) = args.first() else { return Meaning::Help(None); };
	let Ok(cmd) = std::str::from_utf8(first) else { return Meaning::Help(None); };
	if cmd.starts_with("-V") || cmd == "--version" || cmd.starts_with("--version=") { return Meaning::Version; }
	if ! commands().contains(&cmd) { return Meaning::Help(None); }
	let rest = &args[1..];
	if cmd == "blank" {
		let (mut stderr, mut count) = (false, 1_u128);
		for a in split(BLANK, rest) {
			match a {
				Arg::Flag("-h" | "--help") => return Meaning::Help(Some(cmd.to_owned())),
				Arg::Flag(_) => stderr = true,
				Arg::Value(_, v) => if let Some(n) = num(&v) && n <= u64::MAX.into() { count = count.max(n); },
				_ => {},
			}
		}
		return Meaning::Blank { stderr, count };
	}
	let mut text = Text { indent: false, stamp: false, prefix: String::new(), msg: String::new() };
	let (mut msg, mut prefix, mut color, mut exit, mut yes, mut stderr) = (None, String::new(), 199_u8, 0_u8, false, false);
	for a in split(MSG, rest) {
		match a {
			Arg::Flag("-h" | "--help") => return Meaning::Help(Some(cmd.to_owned())),
			Arg::Flag("-i" | "--indent") => text.indent = true,
			Arg::Flag("--stderr") => stderr = true,
			Arg::Flag("-t" | "--timestamp") => text.stamp = true,
			Arg::Flag(_) => yes = true,
			Arg::Value("-c" | "--prefix-color", v) => if let Some(n) = num(&v).and_then(|n| u8::try_from(n).ok()) { color = n; },
			Arg::Value("-e" | "--exit", v) => if let Some(n) = num(&v).and_then(|n| u8::try_from(n).ok()) { exit = n; },
			Arg::Value(_, v) => prefix = v,
			Arg::Other(s) => if msg.is_none() { msg = Some(s); } else { return Meaning::Invalid(cmd.to_owned()); },
			Arg::Bad => return Meaning::Invalid(cmd.to_owned()),
		}
	}
	let Some(msg) = msg else { return Meaning::Missing; };
	text.msg = msg;
	text.prefix = match colors::KINDS.iter().find(|k| k.1 == cmd) {
		Some(k) => colors::kind_prefix(k.0, k.2),
		None => colors::prefix(&prefix, Some(color)),
	};
	if cmd == "confirm" { Meaning::Confirm { text, yes } } else { Meaning::Print { text, stderr, exit } }
}
