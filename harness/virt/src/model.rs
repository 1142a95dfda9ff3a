//! Histories and the reference model of what a bar's state should be.

use fyi_msg::{Msg, MsgKind, Progless, ProglessError};
use hc::ansi;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::time::Duration;

/// The parts of a message.
#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Spec { pub indent: u8, pub prefix: Option<(String, u8)>, pub msg: String, pub suffix: String, pub newline: bool }

impl Spec {
	pub fn build(&self) -> Msg {
		let m = match &self.prefix {
			Some((p, c)) => Msg::new((p.as_str(), *c), self.msg.as_str()),
			None => Msg::from(self.msg.as_str()),
		};
		m.with_indent(self.indent).with_suffix(self.suffix.as_str()).with_newline(self.newline)
	}
	pub fn text(&self) -> String {
		let mut s = "    ".repeat(usize::from(self.indent.min(8)));
		if let Some((p, c)) = &self.prefix { s.push_str(&hc::colors::prefix(p, Some(*c))); }
		s.push_str(&self.msg);
		s.push_str(&self.suffix);
		if self.newline { s.push('\n'); }
		s
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
	Inc,
	IncN(u32),
	SetDone(u32),
	Add(String),
	Remove(String),
	Title(Option<Spec>),
	TitleMsg(String),
	Splines(String),
	Push(Spec),
	Reset(u32),
	TryReset(u32),
	Finish,
	/// Milliseconds.
	Sleep(u32),
	/// Let this many seconds pass without anybody noticing.
	Jump(u32),
	Resize(Option<(u16, u16)>),
	Summary(u8, String, String),
	/// Make a message of (a copy of) the bar.
	Convert,
	/// Copy the handle and drop the copy.
	CloneDrop,
	/// Add a range of numbered tasks.
	Many(u16, u16),
	/// Remove a range of numbered tasks.
	Fewer(u16, u16),
	/// The terminal starts/stops failing.
	Broken(Option<u8>),
}

pub const KINDS: [MsgKind; 13] = [
	MsgKind::None, MsgKind::Confirm, MsgKind::Crunched, MsgKind::Debug, MsgKind::Done, MsgKind::Error, MsgKind::Found,
	MsgKind::Info, MsgKind::Notice, MsgKind::Review, MsgKind::Skipped, MsgKind::Success, MsgKind::Task,
];

pub fn kind(k: u8) -> MsgKind { KINDS[usize::from(k) % KINDS.len()] }

/// The labels of numbered tasks.
pub fn numbered(from: u16, n: u16) -> impl Iterator<Item = String> { (0..n).map(move |k| format!("Numbered task {}", from.wrapping_add(k))) }

/// What an operation gave back.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ret { Unit, Added(usize), Bool(bool), Push(Option<String>), Text(String), Dur(Duration), Try(Result<(), ProglessError>) }

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Story {
	/// Zero: the default (inert) instance.
	pub total: u32,
	pub title: Option<Spec>,
	pub size: Option<(u16, u16)>,
	/// The first thread is the one that creates and ends the bar.
	pub threads: Vec<Vec<Op>>,
	pub switches: Vec<(u16, u8)>,
	pub faults: Vec<u8>,
	/// Call finish at the end (otherwise just drop).
	pub finish: bool,
	/// After all threads are done, let things settle before ending.
	pub settle: bool,
}

impl Story {
	pub fn ops(&self) -> impl Iterator<Item = &Op> { self.threads.iter().flatten() }
}

pub fn summary_text(bar: &Progless) -> String { bar.summary(MsgKind::None, "~", "~").as_str().to_owned() }

/// The number a summary starts with.
pub fn count_of(s: &str) -> Option<u64> {
	let n: String = s.split(' ').next()?.replace(',', "");
	n.parse().ok()
}

// ------------------------------------------------------------------ model

/// The bar's state, by the documentation.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Model {
	pub running: bool,
	pub done: u64,
	pub total: u64,
	pub tasks: BTreeSet<String>,
	pub title: Option<TitleParts>,
}

/// Title parts: before the message, the message, after it.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct TitleParts { pub pre: String, pub msg: String, pub post: String }

impl TitleParts {
	pub fn of(s: &Spec) -> Option<Self> {
		if s.text().is_empty() { return None; }
		let full = Spec { newline: false, .. s.clone() };
		let pre = Spec { msg: String::new(), suffix: String::new(), .. full.clone() }.text();
		Some(Self { pre, msg: full.msg, post: full.suffix })
	}
	pub fn text(&self) -> String { format!("{}{}{}", self.pre, self.msg, self.post) }
	/// What is shown within a width: one line, white space as spaces.
	pub fn shown(&self, width: usize) -> String {
		let t: String = self.text().chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
		ansi::fit(&t, width)
	}
}

/// A label as listed.
pub fn clean(s: &str) -> Option<String> {
	let out: String = ansi::visible(s.trim_end()).chars()
		.filter_map(|c| if c.is_whitespace() { Some(' ') } else if c.is_control() { None } else { Some(c) })
		.collect();
	if out.is_empty() { None } else { Some(out) }
}

impl Model {
	pub fn new(story: &Story) -> Self {
		Self {
			running: story.total != 0,
			done: 0,
			total: u64::from(story.total),
			tasks: BTreeSet::new(),
			title: story.title.as_ref().and_then(TitleParts::of),
		}
	}

	pub fn end(&mut self) {
		if self.running {
			self.running = false;
			self.done = self.total;
			self.tasks.clear();
		}
	}

	pub fn set(&mut self, n: u64) {
		if self.running {
			if n < self.total { self.done = n; } else { self.end(); }
		}
	}

	/// First half of a removal: take the label off the list.
	pub fn take(&mut self, s: &str) -> bool {
		self.running && (self.tasks.remove(s.trim_end()) || clean(s).is_some_and(|s| self.tasks.remove(&s)))
	}

	/// States passed through by an operation, before the one it ends in.
	pub fn between(&self, op: &Op) -> Vec<Self> {
		let mut m = self.clone();
		let mut out = Vec::new();
		match op {
			// (A removal takes the label off first and counts it second.)
			Op::Remove(x) => if m.take(x) { out.push(m); },
			Op::Many(a, n) => for s in numbered(*a, *n) {
				if m.apply(&Op::Add(s)) == Some(Ret::Bool(true)) { out.push(m.clone()); }
			},
			Op::Fewer(a, n) => for s in numbered(*a, *n) {
				out.extend(m.between(&Op::Remove(s.clone())));
				m.apply(&Op::Remove(s));
				out.push(m.clone());
			},
			_ => {},
		}
		out
	}

	/// Apply an operation; the result, where the model determines it.
	pub fn apply(&mut self, op: &Op) -> Option<Ret> {
		match op {
			Op::Inc => self.set(self.done + 1),
			Op::IncN(n) => if *n != 0 { self.set(self.done + u64::from(*n)) },
			Op::SetDone(n) => self.set(u64::from(*n)),
			Op::Add(s) => return Some(Ret::Bool(self.running && clean(s).is_some_and(|s| self.tasks.insert(s)))),
			Op::Remove(s) => if self.take(s) { self.set(self.done + 1) },
			Op::Many(a, n) => return Some(Ret::Added(numbered(*a, *n).filter(|s| self.apply(&Op::Add(s.clone())) == Some(Ret::Bool(true))).count())),
			Op::Fewer(a, n) => for s in numbered(*a, *n) { self.apply(&Op::Remove(s)); },
			Op::Title(t) => self.title = t.as_ref().and_then(TitleParts::of),
			Op::TitleMsg(s) => if let Some(t) = &mut self.title { t.msg.clone_from(s) },
			Op::Splines(s) => self.title = TitleParts::of(&Spec { prefix: Some((s.clone(), 199)), msg: "Reticulating splines\u{2026}".to_owned(), .. Spec::default() }),
			Op::Push(_) => return Some(Ret::Push(None)),
			Op::Reset(n) => self.restart((*n).max(1)),
			Op::TryReset(0) => return Some(Ret::Try(Err(ProglessError::EmptyTotal))),
			Op::TryReset(n) => { self.restart(*n); return Some(Ret::Try(Ok(()))); },
			Op::Finish => { self.end(); return None; },
			Op::Summary(..) | Op::Convert => return None,
			Op::Sleep(_) | Op::Jump(_) | Op::Resize(_) | Op::CloneDrop | Op::Broken(_) => {},
		}
		Some(Ret::Unit)
	}

	fn restart(&mut self, n: u32) {
		self.end();
		self.running = true;
		self.done = 0;
		self.total = u64::from(n);
	}
}
