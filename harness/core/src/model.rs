//! Reference model of a message: six independent strings.

use fyi_msg::{AnsiColor, Msg, MsgKind};
use hc::proptest::prelude::*;
use hc::proptest::sample::select;
use hc::{ansi, colors, gens};
use serde::{Deserialize, Serialize};

/// Text fields are serialized as-is.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Prefix {
	/// Built-in kind: index into `colors::KINDS`; past the end means `None`.
	Kind(u8),
	Plain(String),
	/// Text, color, and whether the color is passed as a number.
	Color(String, u8, bool),
}

pub const KINDS: [MsgKind; 14] = [
	MsgKind::Aborted, MsgKind::Confirm, MsgKind::Crunched, MsgKind::Debug, MsgKind::Done, MsgKind::Error, MsgKind::Found,
	MsgKind::Info, MsgKind::Notice, MsgKind::Review, MsgKind::Skipped, MsgKind::Success, MsgKind::Task, MsgKind::Warning,
];

pub fn kind_of(k: u8) -> MsgKind { KINDS.get(usize::from(k)).copied().unwrap_or(MsgKind::None) }

impl Prefix {
	pub fn rendered(&self) -> String {
		match self {
			Self::Kind(k) => colors::KINDS.get(usize::from(*k)).map_or_else(String::new, |(n, _, c)| colors::kind_prefix(n, *c)),
			Self::Plain(s) => colors::prefix(s, None),
			Self::Color(s, c, _) => colors::prefix(s, Some(*c)),
		}
	}

	pub fn new_msg(&self, msg: &str) -> Msg {
		match self {
			Self::Kind(k) => Msg::new(kind_of(*k), msg),
			Self::Plain(s) => Msg::new(s.as_str(), msg),
			Self::Color(s, c, true) => Msg::new((s.as_str(), *c), msg),
			Self::Color(s, c, false) => Msg::new((s.as_str(), AnsiColor::from_u8(*c)), msg),
		}
	}

	pub fn set(&self, m: &mut Msg) {
		match self {
			Self::Kind(k) => m.set_prefix(kind_of(*k)),
			Self::Plain(s) => m.set_prefix(s.as_str()),
			Self::Color(s, c, true) => m.set_prefix((s.as_str(), *c)),
			Self::Color(s, c, false) => m.set_prefix((s.as_str(), AnsiColor::from_u8(*c))),
		}
	}

	pub fn with(&self, m: Msg) -> Msg {
		match self {
			Self::Kind(k) => m.with_prefix(kind_of(*k)),
			Self::Plain(s) => m.with_prefix(s.as_str()),
			Self::Color(s, c, true) => m.with_prefix((s.as_str(), *c)),
			Self::Color(s, c, false) => m.with_prefix((s.as_str(), AnsiColor::from_u8(*c))),
		}
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ctor {
	Default,
	From(String),
	FromOwned(String),
	FromCow(String),
	New(Prefix, String),
	/// One-shot helper for a kind (falls back to `Msg::new` for Confirm).
	Shortcut(u8, String),
	IntoMsg(u8, String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
	Indent(u8),
	Timestamp(bool),
	Prefix(Prefix),
	Msg(String),
	Suffix(String),
	Newline(bool),
	Strip,
	Saved(u64, u64),
	CloneIt,
	/// Set a part (0 = message, 1 = suffix, 2 = prefix) to something close to
	/// what it is now.
	Near(u8, u8, u16),
}

/// The reference: rendered parts.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Model {
	pub indent: String,
	pub ts: String,
	pub prefix: String,
	pub msg: String,
	pub suffix: String,
	pub newline: String,
	/// What the prefix was set to last.
	pub from: Option<Prefix>,
}

impl Model {
	/// The text, part by part.
	pub fn parts(&self) -> [&str; 6] { [&self.indent, &self.ts, &self.prefix, &self.msg, &self.suffix, &self.newline] }

	pub fn text(&self) -> String {
		[&self.indent, &self.ts, &self.prefix, &self.msg, &self.suffix, &self.newline].into_iter().map(String::as_str).collect()
	}
}

pub fn shortcut(k: u8, s: &str) -> Msg {
	match k {
		0 => Msg::aborted(s),
		2 => Msg::crunched(s),
		3 => Msg::debug(s),
		4 => Msg::done(s),
		5 => Msg::error(s),
		6 => Msg::found(s),
		7 => Msg::info(s),
		8 => Msg::notice(s),
		9 => Msg::review(s),
		10 => Msg::skipped(s),
		11 => Msg::success(s),
		12 => Msg::task(s),
		13 => Msg::warning(s),
		_ => Msg::new(kind_of(k), s).with_newline(true),
	}
}

impl Ctor {
	pub fn build(&self) -> (Msg, Model) {
		let mut model = Model::default();
		let msg = match self {
			Self::Default => Msg::default(),
			Self::From(s) => { model.msg.clone_from(s); Msg::from(s.as_str()) },
			Self::FromOwned(s) => { model.msg.clone_from(s); Msg::from(s.clone()) },
			Self::FromCow(s) => { model.msg.clone_from(s); Msg::from(std::borrow::Cow::Borrowed(s.as_str())) },
			Self::New(p, s) => {
				model.msg.clone_from(s);
				model.prefix = p.rendered();
				model.from = Some(p.clone());
				p.new_msg(s)
			},
			Self::Shortcut(k, s) => {
				model.msg.clone_from(s);
				model.prefix = Prefix::Kind(*k).rendered();
				model.newline.push('\n');
				shortcut(*k, s)
			},
			Self::IntoMsg(k, s) => {
				model.msg.clone_from(s);
				model.prefix = Prefix::Kind(*k).rendered();
				kind_of(*k).into_msg(s)
			},
		};
		(msg, model)
	}
}

/// Savings suffix, from first principles.
pub fn saved_suffix(before: u64, after: u64) -> Vec<String> {
	if before == 0 || after == 0 || before <= after { return vec![" \x1b[2m(No savings.)\x1b[0m".to_owned()]; }
	let n = before - after;
	// Nearest hundredth of a percent, allowing either neighbour when the exact
	// value is within floating-point noise of a tie.
	let num = u128::from(n) * 10_000 * 2 + u128::from(before);
	let den = u128::from(before) * 2;
	let q = num / den;
	let rem = num % den;
	let slack = den >> 30;
	let mut cands = vec![q];
	if rem <= slack && q != 0 { cands.push(q - 1); }
	if den - rem <= slack { cands.push(q + 1); }
	cands.into_iter().map(|q| format!(
		" \x1b[2m(Saved {} bytes, {}.{:02}%.)\x1b[0m",
		hc::num::commas(u128::from(n)),
		q / 100, q % 100,
	)).collect()
}

/// Is this a well-formed timestamp part?
pub fn check_timestamp(s: &str) -> Result<(), String> {
	let inner = s.strip_prefix("\x1b[2m[\x1b[0;34m").and_then(|s| s.strip_suffix("\x1b[0;2m]\x1b[0m "))
		.ok_or_else(|| format!("timestamp decoration: {s:?}"))?;
	let b = inner.as_bytes();
	let shape = b.len() == 19 && b.iter().enumerate().all(|(i, c)| match i {
		4 | 7 => *c == b'-',
		10 => *c == b' ',
		13 | 16 => *c == b':',
		_ => c.is_ascii_digit(),
	});
	if shape { Ok(()) } else { Err(format!("timestamp shape: {inner:?}")) }
}

/// Length of a decorated timestamp.
pub const TS_LEN: usize = 4 + 1 + 7 + 19 + 6 + 1 + 4 + 1;

impl Op {
	/// Apply to both; `Err` on any disagreement.
	pub fn apply(&self, msg: &mut Msg, model: &mut Model, builder: bool) -> Result<(), String> {
		macro_rules! ap {
			($set:ident, $with:ident, $v:expr) => (
				if builder { *msg = std::mem::take(msg).$with($v); }
				else { msg.$set($v); }
			);
		}
		match self {
			Self::Indent(n) => {
				ap!(set_indent, with_indent, *n);
				model.indent = " ".repeat(4 * usize::from((*n).min(8)));
			},
			#[cfg(feature = "timestamps")]
			Self::Timestamp(on) => {
				ap!(set_timestamp, with_timestamp, *on);
				if *on {
					// Adopt whatever time it shows, as long as it has the right shape.
					let i = model.indent.len();
					let got = msg.as_str().get(i..i + TS_LEN).ok_or_else(|| format!("no timestamp in {:?}", msg.as_str()))?;
					check_timestamp(got)?;
					model.ts = got.to_owned();
				}
				else { model.ts.clear(); }
			},
			#[cfg(not(feature = "timestamps"))]
			Self::Timestamp(_) => {},
			Self::Prefix(p) => {
				if builder { *msg = p.with(std::mem::take(msg)); }
				else { p.set(msg); }
				model.prefix = p.rendered();
				model.from = Some(p.clone());
			},
			Self::Near(part, how, n) => return match part {
				0 => Self::Msg(gens::near(&model.msg, *how, *n)),
				1 => Self::Suffix(gens::near(&model.suffix, *how, *n)),
				_ => Self::Prefix(match model.from.clone().unwrap_or(Prefix::Kind(4)) {
					Prefix::Kind(k) if *how < 10 => Prefix::Kind(k ^ u8::from(*how != 0)),
					Prefix::Kind(k) => colors::KINDS.get(usize::from(k)).map_or(Prefix::Kind(k), |(t, _, c)| Prefix::Color((*t).to_owned(), *c, true)),
					Prefix::Plain(s) if *how == 14 => Prefix::Color(s, n.to_le_bytes()[0], false),
					Prefix::Plain(s) => Prefix::Plain(gens::near(&s, *how, *n)),
					Prefix::Color(s, c, b) if *how == 14 => Prefix::Color(s, c ^ 1, b),
					Prefix::Color(s, c, b) if *how == 15 => Prefix::Color(s, c, ! b),
					Prefix::Color(s, c, b) => Prefix::Color(gens::near(&s, *how, *n), c, b),
				}),
			}.apply(msg, model, builder),
			Self::Msg(s) => { ap!(set_msg, with_msg, s); model.msg.clone_from(s); },
			Self::Suffix(s) => { ap!(set_suffix, with_suffix, s); model.suffix.clone_from(s); },
			Self::Newline(b) => { ap!(set_newline, with_newline, *b); model.newline = if *b { "\n".to_owned() } else { String::new() }; },
			Self::Strip => {
				let before = model.clone();
				for p in [&mut model.ts, &mut model.prefix, &mut model.msg, &mut model.suffix] { *p = ansi::strip(p); }
				if builder { *msg = std::mem::take(msg).without_ansi(); }
				else {
					let changed = msg.strip_ansi();
					if changed != (before.parts() != model.parts()) {
						return Err(format!("strip_ansi returned {changed} but the text {}", if before.parts() == model.parts() { "did not change" } else { "changed" }));
					}
				}
			},
			#[cfg(feature = "progress")]
			Self::Saved(b, a) => {
				*msg = std::mem::take(msg).with_bytes_saved(fyi_msg::BeforeAfter::from((*b, *a)));
				let cands = saved_suffix(*b, *a);
				let hit = cands.iter().find(|c| { model.suffix.clone_from(c); model.text() == msg.as_str() });
				if hit.is_none() {
					return Err(format!("bytes saved {b}/{a}: got {:?}, expected one of {cands:?}", msg.as_str()));
				}
			},
			#[cfg(not(feature = "progress"))]
			Self::Saved(..) => {},
			Self::CloneIt => {
				let c = msg.clone();
				*msg = c;
			},
		}
		Ok(())
	}
}

/// Everything observable about the text must agree with the model.
pub fn agree(msg: &Msg, model: &Model, when: &str) -> Result<(), String> {
	let want = model.text();
	if msg.as_str() != want { return Err(format!("{when}: text is {:?}, expected {want:?}", msg.as_str())); }
	if msg.as_bytes() != want.as_bytes() { return Err(format!("{when}: bytes differ from text")); }
	if msg.len() != want.len() || msg.is_empty() != want.is_empty() { return Err(format!("{when}: len {} is_empty {}", msg.len(), msg.is_empty())); }
	Ok(())
}

// ----- generators -----

pub fn prefix() -> BoxedStrategy<Prefix> {
	prop_oneof![
		(0_u8..16).prop_map(Prefix::Kind),
		gens::text_n(4).prop_map(Prefix::Plain),
		(gens::text_n(4), any::<u8>(), any::<bool>()).prop_map(|(s, c, n)| Prefix::Color(s, c, n)),
	].boxed()
}

pub fn ctor() -> BoxedStrategy<Ctor> {
	prop_oneof![
		1 => Just(Ctor::Default),
		2 => gens::text().prop_map(Ctor::From),
		1 => gens::text().prop_map(Ctor::FromOwned),
		1 => gens::text().prop_map(Ctor::FromCow),
		4 => (prefix(), gens::text()).prop_map(|(p, s)| Ctor::New(p, s)),
		3 => (0_u8..15, gens::text()).prop_map(|(k, s)| Ctor::Shortcut(k, s)),
		1 => (0_u8..15, gens::text()).prop_map(|(k, s)| Ctor::IntoMsg(k, s)),
	].boxed()
}

pub fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		3 => prop_oneof![0_u8..10, any::<u8>(), select(vec![0, 1, 7, 8, 9, 31, 32, 63, 64, 255])].prop_map(Op::Indent),
		3 => any::<bool>().prop_map(Op::Timestamp),
		4 => prefix().prop_map(Op::Prefix),
		4 => gens::text().prop_map(Op::Msg),
		4 => gens::text().prop_map(Op::Suffix),
		3 => any::<bool>().prop_map(Op::Newline),
		2 => Just(Op::Strip),
		2 => (gens::edgy_u64(), gens::edgy_u64()).prop_map(|(a, b)| Op::Saved(a, b)),
		1 => Just(Op::CloneIt),
		5 => (0_u8..3, 0_u8..16, any::<u16>()).prop_map(|(p, h, n)| Op::Near(p, h, n)),
	].boxed()
}
