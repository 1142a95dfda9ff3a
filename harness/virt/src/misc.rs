//! Prompting, printing and building bars in a virtual world.

use crate::judge::{Frame, parse};
use crate::story::{MS, Spec, count_of, fault, summary_text};
use crate::tales;
use fyi_msg::{Msg, MsgKind, Progless, ProglessError, confirm};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::proptest::sample::select;
use hc::{Obs, Prop, ansi};
use serde::{Deserialize, Serialize};
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use stdshim::virt::{self, Config, Event, Outcome, Verdict};

fn sane(out: &Outcome) -> Result<(), String> {
	if let Some(p) = out.panics.first() { return Err(format!("panicked: {p}")); }
	match &out.verdict {
		Verdict::Finished => Ok(()),
		Verdict::Exited(n) => return Err(format!("the library ended the process with status {n}")),
		Verdict::Deadlock(d) => Err(format!("deadlock: {d}")),
		Verdict::Livelock(d) => Err(format!("no end: {d}")),
	}
}

fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).escape_debug().to_string() }

// ---------------------------------------------------------------- C07

/// Which of the ways to ask.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Way { Prompt, PromptDefault(bool), Eprompt, EpromptDefault(bool), Macro(u8, u8) }

impl Way {
	fn default(self) -> bool {
		match self {
			Self::Prompt | Self::Eprompt => false,
			Self::PromptDefault(d) | Self::EpromptDefault(d) => d,
			Self::Macro(k, _) => k % 6 < 2,
		}
	}
	fn err(self) -> bool { matches!(self, Self::Eprompt | Self::EpromptDefault(_)) }
	fn ask(self, m: &Msg, text: &str) -> bool {
		match self {
			Self::Prompt => m.prompt(),
			Self::PromptDefault(d) => m.prompt_with_default(d),
			Self::Eprompt => m.eprompt(),
			Self::EpromptDefault(d) => m.eprompt_with_default(d),
			Self::Macro(0, _) => confirm!(yes: text),
			Self::Macro(1, i) => confirm!(yes: text, i),
			Self::Macro(2, _) => confirm!(no: text),
			Self::Macro(3, i) => confirm!(no: text, i),
			Self::Macro(4, _) => confirm!(text),
			Self::Macro(_, i) => confirm!(text, i),
		}
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Asked {
	pub ask: Vec<(Spec, Way)>,
	pub input: Vec<Vec<u8>>,
	pub reads: Vec<usize>,
	pub fails: bool,
	pub faults: Vec<u8>,
}

/// The answer a line means.
fn answer(line: &[u8], default: bool) -> Option<bool> {
	let s = std::str::from_utf8(line).ok()?;
	match s.to_lowercase().trim() {
		"" => Some(default),
		"y" | "yes" => Some(true),
		"n" | "no" => Some(false),
		_ => None,
	}
}

pub struct C07;
impl Prop for C07 {
	type Case = Asked;
	const NAME: &'static str = "C07";
	const RULE: &'static str = "one to three prompts (all methods and macro forms, random messages) over random input: answers in odd case and spacing, near misses, blank, huge, multi-byte, NUL and invalid UTF-8 lines, missing final newline, unreadable input, chopped and interrupted reads and writes; answers, exact output order per read and leftover input compared with a line model; non-trivial = at least one invalid line was rejected or two prompts shared one stream";
	fn strategy(&self) -> BoxedStrategy<Asked> {
		let pad = || select(vec!["", "", "", " ", "\t", "  ", "\r", "\u{a0}", "\u{3000}", "\u{b}"]);
		let word = prop_oneof![
			5 => select(vec!["y", "Y", "yes", "YES", "yEs", "n", "N", "no", "NO", "nO", ""]).prop_map(str::to_owned),
			5 => select(vec!["ye", "yess", "yy", "nn", "non", "ja", "0", "1", "true", "y n", "yes no", "ｙ", "Ñ", "ý", "y\0", "\0", "-", "\u{200b}", "\u{feff}y", "y\u{301}", "ſ", "quit", "\x1b[A", "y\x1b[0m"]).prop_map(str::to_owned),
			2 => hc::gens::text_n(5).prop_map(|s| s.replace('\n', "")),
			1 => (hc::gens::word(), 1_usize..3000).prop_map(|(s, n)| s.repeat(n)),
		];
		let line = prop_oneof![
			12 => (pad(), word, pad()).prop_map(|(a, w, b)| format!("{a}{w}{b}").into_bytes()),
			1 => (pad(), 0_usize..5000, select(vec!["y", "n", "No", "YES", "", "x"]), pad(), 0_usize..5000).prop_map(|(a, m, w, b, n)| format!("{}{w}{}", a.repeat(m), b.repeat(n)).into_bytes()),
			1 => vec(any::<u8>().prop_filter("newline", |b| *b != b'\n'), 0..6),
			1 => select(vec![&b"\xff"[..], b"y\xff", b"\xc3", b"yes\xc3\x28", b"\xed\xa0\x80", b"\xf0\x9f\x91"]).prop_map(<[u8]>::to_vec),
		].prop_map(|mut v| { v.push(b'\n'); v });
		let way = prop_oneof![
			Just(Way::Prompt), any::<bool>().prop_map(Way::PromptDefault), Just(Way::Eprompt), any::<bool>().prop_map(Way::EpromptDefault),
			(0_u8..6, 0_u8..11).prop_map(|(a, b)| Way::Macro(a, b)),
		];
		(
			vec((tales::spec(2), way), 1..4),
			prop_oneof![
				20 => vec(line.clone(), 0..7),
				// Someone is persistent.
				1 => (line.clone(), 1_usize..150, vec(line, 0..4)).prop_map(|(l, n, rest)| std::iter::repeat_n(l, n).chain(rest).collect()),
			],
			vec(prop_oneof![1 => Just(0_usize), 3 => 1_usize..6, 1 => 1_usize..4000], 0..12),
			prop_oneof![5 => Just(0_u8), 2 => Just(1), 1 => Just(2), 1 => Just(3)],
			prop_oneof![3 => Just(Vec::new()), 1 => tales::soft_faults()],
		).prop_map(|(ask, mut input, reads, end, faults)| {
			// Lines end with a line break, except perhaps the last.
			if end % 2 == 1 && let Some(l) = input.last_mut() { l.pop(); }
			Asked { ask, input, reads, fails: 2 <= end, faults }
		}).boxed()
	}
	fn check(&self, case: &Asked, obs: &mut Obs) -> Result<(), String> {
		let input: Vec<u8> = case.input.concat();
		let got: Arc<Mutex<Vec<bool>>> = Arc::default();
		let rest: Arc<Mutex<Option<Vec<u8>>>> = Arc::default();
		let same: Arc<Mutex<Vec<String>>> = Arc::default();
		let (g2, r2, s2, ask) = (got.clone(), rest.clone(), same.clone(), case.ask.clone());
		let faults: Vec<_> = case.faults.iter().copied().map(fault).collect();
		let config = Config { stdin: input.clone(), reads: case.reads.clone(), stdin_fails: case.fails, out_faults: faults.clone(), err_faults: faults, max_steps: 20_000 + 200 * case.input.len() as u64, .. Config::default() };
		let out = virt::run(config, move || {
			for (i, (spec, way)) in ask.iter().enumerate() {
				let m = spec.build();
				let before = format!("{m:?}");
				virt::mark(i as u64);
				let a = way.ask(&m, &spec.msg);
				g2.lock().unwrap().push(a);
				let after = format!("{m:?}");
				if before != after || m != spec.text() { s2.lock().unwrap().push(format!("{before} became {after}")); }
			}
			virt::mark(u64::MAX);
			// What is left?
			use stdshim::io::Read;
			let mut v = Vec::new();
			let mut h = stdshim::io::stdin().lock();
			let mut b = [0_u8; 4096];
			loop {
				match h.read(&mut b) {
					Ok(0) => break,
					Ok(n) => v.extend_from_slice(&b[..n]),
					Err(e) if e.kind() == stdshim::io::ErrorKind::Interrupted => {},
					Err(_) => break,
				}
			}
			*r2.lock().unwrap() = Some(v);
		});
		sane(&out)?;
		if let Some(s) = same.lock().unwrap().first() { return Err(format!("the message changed: {s}")); }

		// The model.
		let mut lines = case.input.iter().filter(|l| ! l.is_empty());
		let mut rejected = 0_usize;
		let got = got.lock().unwrap().clone();
		let mut log = out.log.iter();
		if ! matches!(log.next(), Some(Event::Mark { id: 0, .. })) { return Err("output before the first prompt".to_owned()); }
		for (i, (spec, way)) in case.ask.iter().enumerate() {
			let default = way.default();
			let mut bad = 0_usize;
			let want = loop {
				match lines.next() {
					None => break default,
					// (Half a line that could not be read any further.)
					Some(l) if case.fails && ! l.ends_with(b"\n") => break default,
					Some(l) => match answer(l, default) { Some(a) => break a, None => bad += 1 },
				}
			};
			rejected += bad;
			if got[i] != want { return Err(format!("prompt {i} {way:?} answered {}, expected {want}; input {}", got[i], show(&input))); }
			// What was printed, and when.
			let q = match way {
				Way::Macro(k, indent) => Spec {
					prefix: Some(("Confirm".to_owned(), 208)), indent: if k % 2 == 1 { *indent } else { 0 }, msg: spec.msg.clone(), .. Spec::default()
				},
				_ => Spec { suffix: String::new(), newline: false, .. spec.clone() },
			}.text();
			let hint = if default { " [Y/n] " } else { " [y/N] " };
			let mut text: Vec<u8> = Vec::new();
			let mut shown: Vec<usize> = Vec::new();
			for e in log.by_ref() {
				match e {
					Event::Mark { .. } => break,
					Event::Write { err, bytes, .. } => {
						if *err != way.err() { return Err(format!("prompt {i} {way:?} wrote to the wrong stream: {}", show(bytes))); }
						text.extend_from_slice(bytes);
					},
					Event::Read { .. } => if shown.last() != Some(&text.len()) { shown.push(text.len()); },
					_ => {},
				}
			}
			// Take the output apart.
			let full = String::from_utf8(text.clone()).map_err(|_| format!("prompt {i} printed invalid UTF-8: {}", show(&text)))?;
			let mut ends = Vec::new();
			let mut at = 0_usize;
			for round in 0..=bad {
				let Some(r) = full[at..].strip_prefix(&q) else { return Err(format!("prompt {i} {way:?}, round {round}: expected the question {q:?}, printed {:?}", &full[at..])); };
				// The hint may be styled any way.
				let start = full.len() - r.len();
				let end = (start..=full.len().min(start + 120)).filter(|e| full.is_char_boundary(*e)).rev()
					.find(|e| ansi::visible(&full[start..*e]) == hint)
					.ok_or_else(|| format!("prompt {i} {way:?}: no hint {hint:?} in {r:?}"))?;
				ends.push(end);
				at = end;
				if round < bad {
					let Some(n) = full[at..].find('\n') else { return Err(format!("prompt {i}: no error line in {:?}", &full[at..])); };
					if ansi::visible(&full[at..at + n]).trim().is_empty() { return Err(format!("prompt {i}: empty error line in {full:?}")); }
					at += n + 1;
				}
			}
			if at != full.len() { return Err(format!("prompt {i} {way:?}: extra output {:?} after {bad} invalid lines", &full[at..])); }
			// (The end of the hint and the start of the next line's styles
			// cannot be told apart, so only visible text is compared.)
			// (Piece by piece, or it would take ages to tell what a stubborn
			// user gets to see.)
			let mut visible: Vec<usize> = Vec::new();
			let (mut from, mut n) = (0, 0);
			for e in &ends {
				n += ansi::visible(&full[from..*e]).len();
				from = *e;
				visible.push(n);
			}
			for (i2, at) in shown.iter().enumerate() {
				if ends.get(i2).is_some_and(|e| at <= e && full.get(*at..*e).is_some_and(|s| ansi::visible(s).is_empty())) { continue; }
				let s = ansi::visible(&String::from_utf8_lossy(&text[..*at]));
				if ! visible.contains(&s.len()) { return Err(format!("prompt {i} {way:?} read while {s:?} was shown, of {full:?}")); }
			}

		}
		let left: Vec<u8> = lines.flatten().copied().collect();
		let rest = rest.lock().unwrap().clone().unwrap_or_default();
		if rest != left { return Err(format!("{} left to read, expected {}", show(&rest), show(&left))); }
		obs.label_if(rejected != 0, "invalid line");
		obs.label_if(input.iter().any(|b| 0x80 <= *b), "non-ASCII input");
		obs.label_if(case.fails, "unreadable input");
		obs.nontrivial_if(rejected != 0 || (1 < case.ask.len() && 1 < case.input.len()));
		Ok(())
	}
}

// ---------------------------------------------------------------- C08

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Printed {
	/// Per thread: messages, true for standard error.
	pub threads: Vec<Vec<(Spec, bool)>>,
	pub switches: Vec<(u16, u8)>,
	pub out_faults: Vec<u8>,
	pub err_faults: Vec<u8>,
	/// Fail for good from the start: stream and how.
	pub broken: Option<(bool, u8)>,
}

pub struct C08;
impl Prop for C08 {
	type Case = Printed;
	const NAME: &'static str = "C08";
	const RULE: &'static str = "one to three threads printing random messages (empty, multi-line, huge, without line break) to both streams, with short and interrupted writes, failing and full streams and random preemption; device contents after each call and at the end compared with the messages; non-trivial = a message was printed and there were faults, several threads, or a message without a final line break";
	fn strategy(&self) -> BoxedStrategy<Printed> {
		let big = (hc::gens::word(), 100_usize..4000).prop_map(|(w, n)| Spec { msg: w.repeat(n), .. Spec::default() });
		let msg = prop_oneof![10 => tales::spec(3), 1 => big];
		let faults = || prop_oneof![
			2 => Just(Vec::new()),
			3 => vec(prop_oneof![1 => Just(0_u8), 3 => 1_u8..40, 3 => Just(250_u8)], 0..20),
			1 => vec(prop_oneof![4 => Just(0_u8), 2 => 1_u8..40, 1 => 250_u8..], 0..12),
		];
		(
			vec(vec((msg, any::<bool>()), 1..5), 1..4),
			tales::switches(true),
			faults(), faults(),
			hc::proptest::option::weighted(0.1, any::<(bool, u8)>()),
		).prop_map(|(threads, switches, out_faults, err_faults, broken)| Printed { threads, switches, out_faults, err_faults, broken }).boxed()
	}
	fn check(&self, case: &Printed, obs: &mut Obs) -> Result<(), String> {
		let c = case.clone();
		let config = Config {
			switches: case.switches.clone(),
			out_faults: case.out_faults.iter().copied().map(fault).collect(),
			err_faults: case.err_faults.iter().copied().map(fault).collect(),
			.. Config::default()
		};
		let out = virt::run(config, move || {
			if let Some((err, how)) = c.broken {
				virt::with_state(|s| *(if err { &mut s.err_broken } else { &mut s.out_broken }) = Some(fault(251 + how % 4)));
			}
			let go = |t: usize, list: Vec<(Spec, bool)>| {
				for (i, (m, err)) in list.into_iter().enumerate() {
					let m = m.build();
					virt::mark(((t as u64) << 32) | (i as u64 * 2));
					if err { m.eprint(); } else { m.print(); }
					virt::mark(((t as u64) << 32) | (i as u64 * 2 + 1));
				}
			};
			let hs: Vec<_> = c.threads.iter().cloned().enumerate().skip(1).map(|(t, l)| stdshim::thread::spawn_harness(move || go(t, l))).collect();
			go(0, c.threads[0].clone());
			for h in hs { let _ = h.join(); }
		});
		sane(&out)?;
		// Contents of each device, and where each call started and ended.
		let mut dev: [Vec<u8>; 2] = Default::default();
		// Everything a thread wrote to each device during each call.
		let mut calls: std::collections::BTreeMap<(usize, usize), ([Vec<u8>; 2], [usize; 2])> = std::collections::BTreeMap::new();
		let mut now: std::collections::HashMap<usize, (usize, usize)> = std::collections::HashMap::new();
		let mut order: [Vec<(usize, usize)>; 2] = Default::default();
		for e in &out.log {
			match e {
				Event::Mark { tid, id, .. } => {
					let key = ((id >> 32) as usize, ((id & 0xFFFF_FFFF) / 2) as usize);
					if id & 1 == 0 { now.insert(*tid, key); calls.entry(key).or_default(); } else { now.remove(tid); }
				},
				Event::Write { tid, err, bytes, .. } => {
					let d = usize::from(*err);
					let Some(key) = now.get(tid) else { return Err(format!("written after the call returned: {}", show(bytes))); };
					calls.get_mut(key).unwrap().0[d].extend_from_slice(bytes);
					if order[d].last() != Some(key) { order[d].push(*key); }
					dev[d].extend_from_slice(bytes);
				},
				_ => {},
			}
		}
		let hard = |err: bool| case.broken.is_some_and(|b| b.0 == err) || (if err { &case.err_faults } else { &case.out_faults }).iter().any(|f| 251 <= *f);
		let mut loose = false;
		for (t, list) in case.threads.iter().enumerate() {
			for (i, (m, err)) in list.iter().enumerate() {
				let text = m.text();
				loose |= ! text.ends_with('\n');
				let got = &calls[&(t, i)].0;
				let (mine, other) = (&got[usize::from(*err)], &got[usize::from(! *err)]);
				if ! other.is_empty() { return Err(format!("thread {t} message {i} also went to the other stream: {}", show(other))); }
				if hard(*err) {
					// Standard error is not buffered: what arrives is a prefix.
					if *err && ! text.as_bytes().starts_with(mine) { return Err(format!("thread {t} message {i} {text:?} was printed as {}", show(mine))); }
					continue;
				}
				if mine != text.as_bytes() { return Err(format!("thread {t} message {i} {text:?} was printed as {} by the time the call returned", show(mine))); }
			}
		}
		// Not mixed with one another.
		for d in 0..2 {
			let mut seen = std::collections::HashSet::new();
			for k in &order[d] {
				if ! hard(d == 1) && ! seen.insert(*k) { return Err(format!("message {k:?} was torn apart: {}", show(&dev[d]))); }
			}
			// A failing buffered stream may deliver late, but nothing twice.
			if hard(d == 1) {
				let all: usize = case.threads.iter().flatten().filter(|x| usize::from(x.1) == d).map(|x| x.0.text().len()).sum();
				if all < dev[d].len() { return Err(format!("more was printed than asked for: {}", show(&dev[d]))); }
			}
		}
		let faulty = ! case.out_faults.is_empty() || ! case.err_faults.is_empty() || case.broken.is_some();
		obs.label_if(faulty, "faults");
		obs.label_if(hard(true) || hard(false), "hard faults");
		obs.label_if(1 < case.threads.len(), "several threads");
		obs.nontrivial_if(dev.iter().any(|d| ! d.is_empty()) && (faulty || 1 < case.threads.len() || loose));
		Ok(())
	}
}

// ---------------------------------------------------------------- C17

/// An integer of some type.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Num {
	U8(u8), U16(u16), U32(u32), U64(u64), Usize(usize), U128(u64, u64),
	I8(i8), I16(i16), I32(i32), I64(i64), Isize(isize), I128(i64, u64),
	NzU8(u8), NzU16(u16), NzU32(u32), NzU64(u64), NzUsize(usize), NzU128(u64, u64),
}

fn u128_of(a: u64, b: u64) -> u128 { (u128::from(a) << 64) | u128::from(b) }
fn i128_of(a: i64, b: u64) -> i128 { (i128::from(a) << 64) | i128::from(b) }

impl Num {
	/// Value clamped to something comparable: `None` = not a valid total.
	fn value(self) -> i128 {
		match self {
			Self::U8(n) => n.into(), Self::U16(n) => n.into(), Self::U32(n) => n.into(), Self::U64(n) => n.into(),
			Self::Usize(n) => n as i128, Self::U128(a, b) => i128::try_from(u128_of(a, b)).unwrap_or(i128::MAX),
			Self::I8(n) => n.into(), Self::I16(n) => n.into(), Self::I32(n) => n.into(), Self::I64(n) => n.into(),
			Self::Isize(n) => n as i128, Self::I128(a, b) => i128_of(a, b),
			Self::NzU8(n) => n.max(1).into(), Self::NzU16(n) => n.max(1).into(), Self::NzU32(n) => n.max(1).into(), Self::NzU64(n) => n.max(1).into(),
			Self::NzUsize(n) => n.max(1) as i128, Self::NzU128(a, b) => i128::try_from(u128_of(a, b).max(1)).unwrap_or(i128::MAX),
		}
	}
	fn build(self) -> Result<Progless, ProglessError> {
		match self {
			Self::U8(n) => Progless::try_from(n), Self::U16(n) => Progless::try_from(n), Self::U32(n) => Progless::try_from(n), Self::U64(n) => Progless::try_from(n),
			Self::Usize(n) => Progless::try_from(n), Self::U128(a, b) => Progless::try_from(u128_of(a, b)),
			Self::I8(n) => Progless::try_from(n), Self::I16(n) => Progless::try_from(n), Self::I32(n) => Progless::try_from(n), Self::I64(n) => Progless::try_from(n),
			Self::Isize(n) => Progless::try_from(n), Self::I128(a, b) => Progless::try_from(i128_of(a, b)),
			Self::NzU8(n) => Ok(Progless::from(NonZeroU8::new(n.max(1)).unwrap())),
			Self::NzU16(n) => Ok(Progless::from(NonZeroU16::new(n.max(1)).unwrap())),
			Self::NzU32(n) => Ok(Progless::from(NonZeroU32::new(n.max(1)).unwrap())),
			Self::NzU64(n) => Progless::try_from(NonZeroU64::new(n.max(1)).unwrap()),
			Self::NzUsize(n) => Progless::try_from(NonZeroUsize::new(n.max(1)).unwrap()),
			Self::NzU128(a, b) => Progless::try_from(NonZeroU128::new(u128_of(a, b).max(1)).unwrap()),
		}
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Totals { pub first: Num, pub done: u32, pub resets: Vec<(bool, u32)> }

#[derive(Debug, Default)]
struct Report { res: Option<Result<(), ProglessError>>, frames: Vec<(u64, Option<(String, String)>)>, resets: Vec<Result<(), ProglessError>>, last: Option<u64> }

pub struct C17;
impl Prop for C17 {
	type Case = Totals;
	const NAME: &'static str = "C17";
	const RULE: &'static str = "random and boundary values (0, ±1, powers of two, type limits, u32::MAX±k) of all eighteen accepted integer types, followed by resets and refused resets; acceptance, error kind, drawn total, count after each step and at the end compared with the value; non-trivial = the value is not accepted, or a reset followed, or the total is above 65535";
	fn strategy(&self) -> BoxedStrategy<Totals> {
		let n64 = || prop_oneof![
			3 => hc::gens::edgy_u64(),
			2 => (0_u64..6).prop_map(|d| 4_294_967_293 + d),
			2 => 0_u64..4,
			1 => (0_u32..64).prop_map(|s| 1_u64 << s),
			1 => (0_u64..4, any::<u32>()).prop_map(|(a, b)| (a << 32) | u64::from(b)),
		];
		let hi = || prop_oneof![4 => Just(0_u64), 1 => n64(), 1 => 1_u64..3];
		let num = prop_oneof![
			any::<u8>().prop_map(Num::U8), prop_oneof![any::<u16>(), Just(0)].prop_map(Num::U16), n64().prop_map(|n| Num::U32(n as u32)), n64().prop_map(Num::U64),
			n64().prop_map(|n| Num::Usize(n as usize)), (hi(), n64()).prop_map(|(a, b)| Num::U128(a, b)),
			any::<i8>().prop_map(Num::I8), any::<i16>().prop_map(Num::I16), (n64(), any::<bool>()).prop_map(|(n, s)| Num::I32(if s { (n as i32).wrapping_neg() } else { n as i32 })),
			(n64(), any::<bool>()).prop_map(|(n, s)| Num::I64(if s { (n as i64).wrapping_neg() } else { n as i64 })),
			(n64(), any::<bool>()).prop_map(|(n, s)| Num::Isize(if s { (n as isize).wrapping_neg() } else { n as isize })),
			(prop_oneof![3 => Just(0_i64), 1 => Just(-1_i64), 1 => any::<i64>()], n64()).prop_map(|(a, b)| Num::I128(a, b)),
			any::<u8>().prop_map(Num::NzU8), any::<u16>().prop_map(Num::NzU16), n64().prop_map(|n| Num::NzU32(n as u32)), n64().prop_map(Num::NzU64),
			n64().prop_map(|n| Num::NzUsize(n as usize)), (hi(), n64()).prop_map(|(a, b)| Num::NzU128(a, b)),
		];
		let reset = (any::<bool>(), prop_oneof![2 => Just(0_u32), 3 => n64().prop_map(|n| n as u32)]);
		(num, any::<u32>(), prop_oneof![3 => Just(Vec::new()), 2 => vec(reset, 1..4)]).prop_map(|(first, done, resets)| Totals { first, done, resets }).boxed()
	}
	fn check(&self, case: &Totals, obs: &mut Obs) -> Result<(), String> {
		let report: Arc<Mutex<Report>> = Arc::default();
		let (r2, c) = (report.clone(), case.clone());
		let config = Config { size: Some((120, 24)), .. Config::default() };
		let out = virt::run(config, move || {
			let look = |bar: &Progless| {
				stdshim::thread::sleep(Duration::from_millis(310));
				let mut t = hc::vt::Term::new(120, 24);
				virt::with_state(|s| for e in &s.log { if let Event::Write { err: true, bytes, .. } = e { t.feed(bytes); } });
				let drawn = if let Frame::Full { done, total, .. } = parse(&t) { Some((done, total)) } else { None };
				(count_of(&summary_text(bar)).unwrap_or(u64::MAX), drawn)
			};
			let bar = match c.first.build() {
				Ok(b) => { r2.lock().unwrap().res = Some(Ok(())); b },
				Err(e) => { r2.lock().unwrap().res = Some(Err(e)); return; },
			};
			let f = look(&bar);
			r2.lock().unwrap().frames.push(f);
			// Stay below the total.
			bar.set_done(c.done % u32::try_from(c.first.value()).unwrap_or(1));
			let f = look(&bar);
			r2.lock().unwrap().frames.push(f);
			for (plain, n) in c.resets {
				let res = match NonZeroU32::new(n) {
					Some(n) if plain => { bar.reset(n); Ok(()) },
					_ => bar.try_reset(n),
				};
				let f = look(&bar);
				let mut r = r2.lock().unwrap();
				r.resets.push(res);
				r.frames.push(f);
			}
			bar.finish();
			r2.lock().unwrap().last = count_of(&summary_text(&bar));
		});
		sane(&out)?;
		let _ = (MS, MsgKind::None);
		let r = std::mem::take(&mut *report.lock().unwrap());
		let v = case.first.value();
		let want = if v == 0 { Err(ProglessError::EmptyTotal) } else if (1..=4_294_967_295).contains(&v) { Ok(()) } else { Err(ProglessError::TotalOverflow) };
		if r.res != Some(want) { return Err(format!("{:?} gave {:?}, expected {want:?}", case.first, r.res)); }
		obs.label(if want.is_ok() { "accepted" } else { "refused" });
		obs.nontrivial_if(want.is_err() || ! case.resets.is_empty() || 65_535 < v);
		if let Err(e) = want {
			let (text, same): (&str, &str) = (e.as_str(), e.as_ref());
			if e.to_string() != text || same != text || format!("{e:>70}") != format!("{text:>70}") { return Err(format!("{e:?} reads {text:?}, {same:?} or {:?}", e.to_string())); }
			if (e == ProglessError::TotalOverflow) != text.contains("4,294,967,295") || text.is_empty() { return Err(format!("{e:?} reads {text:?}")); }
			if Progless::MAX_TOTAL != 4_294_967_295 || Progless::MAX_TOTAL_ERROR != ProglessError::TotalOverflow { return Err("the documented limit differs".to_owned()); }
			return Ok(());
		}
		// Step by step.
		let mut total = v as u64;
		let mut done = 0_u64;
		let mut steps: Vec<(u64, u64)> = vec![(0, total)];
		done = if done == 0 { u64::from(case.done) % total } else { done };
		steps.push((done, total));
		for (i, (_, n)) in case.resets.iter().enumerate() {
			let want = if *n == 0 { Err(ProglessError::EmptyTotal) } else { Ok(()) };
			if r.resets[i] != want { return Err(format!("reset to {n} gave {:?}", r.resets[i])); }
			if *n != 0 { total = (*n).into(); done = 0; }
			steps.push((done, total));
		}
		for (i, ((count, drawn), (d, t))) in r.frames.iter().zip(&steps).enumerate() {
			let want = (hc::num::commas((*d).into()), hc::num::commas((*t).into()));
			if count != d { return Err(format!("step {i}: the count is {count}, expected {d}")); }
			if drawn.as_ref() != Some(&want) { return Err(format!("step {i}: drawn {drawn:?}, expected {want:?}")); }
		}
		if r.last != Some(total) { return Err(format!("in the end the count is {:?}, expected {total}", r.last)); }
		Ok(())
	}
}
