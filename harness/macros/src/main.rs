//! C13: the compile-time style macros. Programs made of generated invocations
//! are compiled with the real crate and run, and every resulting constant is
//! compared with an independent expansion.

use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::proptest::sample::select;
use hc::{Obs, Prop, colors};
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};

/// One style keyword.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
enum Style {
	/// `reset` and friends, by name, and whether it is negated.
	Word(String, bool),
	/// A color number.
	Num(u8, bool),
	/// A color name (by number).
	Name(u8, bool),
}

/// One piece of content.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Piece {
	Str(String),
	Raw(String),
	Char(char),
	Int(i64),
	/// Written in hex with a type suffix.
	Hex(u32),
	Bool(bool),
	/// Digits on each side of the point.
	Float(u16, u16),
	/// `stringify!`.
	Words(String),
	/// Anything nested.
	Call(Box<Call>),
}

/// One macro call.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Call {
	Csi(Vec<Style>),
	Ansi(Vec<Style>, Vec<Piece>, bool),
	Short(u8, Vec<Piece>, bool),
	Concat(Vec<Piece>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Program {
	edition: u8,
	import: u8,
	/// Spacing around separators, and where each constant lives.
	look: u8,
	calls: Vec<Call>,
}

const ON: &[(&str, &str)] = &[("bold", "1"), ("dim", "2"), ("italic", "3"), ("underline", "4"), ("blink", "5"), ("strike", "9")];
const OFF: &[(&str, &str)] = &[("bold", "21"), ("dim", "22"), ("italic", "23"), ("underline", "24"), ("blink", "25"), ("strike", "29"), ("reset", "0"), ("fg", "39")];

impl Style {
	fn source(&self) -> (bool, String) {
		match self {
			Self::Word(w, no) => (*no, w.clone()),
			Self::Num(n, no) => (*no, n.to_string()),
			Self::Name(n, no) => (*no, colors::snake(name_of(*n))),
		}
	}
	fn code(&self) -> String {
		match self {
			Self::Word(w, false) if w == "reset" => "0".to_owned(),
			Self::Word(w, no) => (if *no { OFF } else { ON }).iter().find(|(k, _)| k == w).unwrap().1.to_owned(),
			Self::Num(_, true) | Self::Name(_, true) => "39".to_owned(),
			Self::Num(n, false) | Self::Name(n, false) => colors::code(*n),
		}
	}
}

fn name_of(n: u8) -> &'static str { colors::NAMED.iter().find(|(k, _)| *k == n).unwrap().1 }

/// Source writer.
struct Src { path: &'static str, look: u8 }

impl Src {
	fn sep(&self) -> &'static str { [", ", ",", " , ", ",\n\t"][usize::from(self.look & 3)] }
	fn styles(&self, v: &[Style]) -> String {
		v.iter().map(|s| {
			let (no, w) = s.source();
			format!("{}{w}", match (no, self.look & 4 != 0) { (false, _) => "", (true, false) => "!", (true, true) => "! " })
		}).collect::<Vec<_>>().join(self.sep())
	}
	fn pieces(&self, v: &[Piece], trail: bool) -> String {
		let mut out = v.iter().map(|p| self.piece(p)).collect::<Vec<_>>().join(self.sep());
		if trail { out.push(','); }
		out
	}
	fn piece(&self, p: &Piece) -> String {
		match p {
			Piece::Str(s) => format!("{s:?}"),
			Piece::Raw(s) => format!("r##\"{s}\"##"),
			Piece::Char(c) => format!("{c:?}"),
			Piece::Int(n) => n.to_string(),
			Piece::Hex(n) => format!("0x{n:X}_u64"),
			Piece::Bool(b) => b.to_string(),
			Piece::Float(a, b) => format!("{a}.{b}"),
			Piece::Words(w) => format!("stringify!({w})"),
			Piece::Call(c) => self.call(c),
		}
	}
	fn call(&self, c: &Call) -> String {
		let p = self.path;
		match c {
			Call::Csi(s) => format!("{p}csi!({})", self.styles(s)),
			Call::Ansi(s, c, t) => format!("{p}ansi!(({}) {})", self.styles(s), self.pieces(c, *t)),
			Call::Short(k, c, t) => format!("{p}{}!({})", ON[usize::from(*k)].0, self.pieces(c, *t)),
			Call::Concat(c) => format!("concat!({})", self.pieces(c, false)),
		}
	}
}

/// What the constant has to be.
fn value(c: &Call) -> String {
	fn csi(v: &[Style]) -> String {
		if v.is_empty() { return "\x1b[0m".to_owned(); }
		format!("\x1b[{}m", v.iter().map(Style::code).collect::<Vec<_>>().join(";"))
	}
	fn all(v: &[Piece]) -> String { v.iter().map(piece).collect() }
	fn piece(p: &Piece) -> String {
		match p {
			Piece::Str(s) | Piece::Raw(s) | Piece::Words(s) => s.clone(),
			Piece::Char(c) => c.to_string(),
			Piece::Int(n) => n.to_string(),
			Piece::Hex(n) => n.to_string(),
			Piece::Bool(b) => b.to_string(),
			Piece::Float(a, b) => format!("{a}.{b}"),
			Piece::Call(c) => value(c),
		}
	}
	match c {
		Call::Csi(s) => csi(s),
		Call::Ansi(s, c, _) => format!("{}{}\x1b[0m", csi(s), all(c)),
		Call::Short(k, c, _) => format!("\x1b[{}m{}\x1b[0m", ON[usize::from(*k)].1, all(c)),
		Call::Concat(c) => all(c),
	}
}

impl Program {
	fn source(&self) -> String {
		use std::fmt::Write;
		const ALL: &str = "ansi, blink, bold, csi, dim, italic, strike, underline";
		let mut out = String::from("#![allow(unused)]\n#![recursion_limit = \"2048\"]\n");
		let path = match self.import % 5 {
			0 => { let _ = writeln!(out, "use fyi_ansi::{{{ALL}}};"); "" },
			1 => "fyi_ansi::",
			2 => { out.push_str("#[macro_use] extern crate fyi_ansi;\n"); "" },
			3 => { out.push_str("use fyi_ansi as paint;\n"); "paint::" },
			_ => { out.push_str("use fyi_ansi::*;\n"); "" },
		};
		let src = Src { path, look: self.look };
		let mut list = String::new();
		let inner = self.look & 8 != 0;
		for (k, c) in self.calls.iter().enumerate() {
			let call = src.call(c);
			if inner {
				// As expressions, in place.
				let _ = writeln!(list, "\tput(&mut o, {call});");
			}
			else {
				let _ = writeln!(out, "{} X{k}: &str = {call};", if k % 2 == 0 { "const" } else { "static" });
				let _ = writeln!(list, "\tput(&mut o, X{k});");
			}
		}
		out.push_str("fn put(o: &mut Vec<u8>, s: &str) { o.extend_from_slice(&(s.len() as u32).to_le_bytes()); o.extend_from_slice(s.as_bytes()); }\n");
		let _ = writeln!(out, "fn main() {{\n\tlet mut o = Vec::new();\n{list}\tstd::io::Write::write_all(&mut std::io::stdout(), &o).unwrap();\n}}");
		out
	}

	/// Compile, run and compare: `Err((index if known, message))`.
	fn judge(&self) -> Result<(), (Option<usize>, String)> {
		let dir = format!("{}/{}", std::env::var("SCRATCH").unwrap_or_else(|_| "/tmp".to_owned()), std::process::id());
		std::fs::create_dir_all(&dir).expect("scratch");
		let (rs, exe) = (format!("{dir}/p.rs"), format!("{dir}/p"));
		std::fs::write(&rs, self.source()).expect("write program");
		let rlib = std::env::var("FYI_ANSI").expect("FYI_ANSI");
		let out = Command::new("rustc")
			.args(["--edition", ["2018", "2021", "2024"][usize::from(self.edition % 3)], "--crate-name", "p", "-C", "debuginfo=0", "-C", "opt-level=0", "-o", &exe])
			.args(["--extern", &format!("fyi_ansi={rlib}"), &rs])
			.stdin(Stdio::null())
			.output()
			.expect("rustc");
		if ! out.status.success() {
			let e = String::from_utf8_lossy(&out.stderr).into_owned();
			return Err((None, format!("a program of documented invocations does not compile:\n{}", &e[..e.floor_char_boundary(3000)])));
		}
		let run = Command::new(&exe).stdin(Stdio::null()).output().expect("run program");
		assert!(run.status.success(), "the generated program failed: {run:?}");
		let mut raw: &[u8] = &run.stdout;
		for (k, c) in self.calls.iter().enumerate() {
			let n = u32::from_le_bytes(raw[..4].try_into().unwrap()) as usize;
			let got = std::str::from_utf8(&raw[4..4 + n]).unwrap();
			raw = &raw[4 + n..];
			let want = value(c);
			if got != want {
				return Err((Some(k), format!("{} is {got:?} instead of {want:?}", Src { path: "", look: self.look }.call(c))));
			}
		}
		assert!(raw.is_empty(), "extra output");
		Ok(())
	}

	/// Every program with one thing less.
	fn smaller(&self) -> Vec<Self> {
		fn less<T: Clone>(v: &[T], min: usize) -> Vec<Vec<T>> {
			if v.len() <= min { return Vec::new(); }
			(0..v.len()).map(|k| { let mut v = v.to_vec(); v.remove(k); v }).collect()
		}
		fn pieces(v: &[Piece]) -> Vec<Vec<Piece>> {
			let mut out = less(v, 1);
			for (k, p) in v.iter().enumerate() {
				if let Piece::Call(c) = p {
					for c in call(c) { let mut v = v.to_vec(); v[k] = Piece::Call(Box::new(c)); out.push(v); }
				}
				if *p != Piece::Str("a".to_owned()) { let mut v = v.to_vec(); v[k] = Piece::Str("a".to_owned()); out.push(v); }
			}
			out
		}
		fn call(c: &Call) -> Vec<Call> {
			match c {
				Call::Csi(s) => less(s, 0).into_iter().map(Call::Csi).collect(),
				Call::Ansi(s, c, t) => {
					let mut out: Vec<Call> = less(s, 1).into_iter().map(|s| Call::Ansi(s, c.clone(), *t)).collect();
					out.extend(pieces(c).into_iter().map(|c| Call::Ansi(s.clone(), c, *t)));
					if *t { out.push(Call::Ansi(s.clone(), c.clone(), false)); }
					out
				},
				Call::Short(k, c, t) => {
					let mut out: Vec<Call> = pieces(c).into_iter().map(|c| Call::Short(*k, c, *t)).collect();
					if *t { out.push(Call::Short(*k, c.clone(), false)); }
					out
				},
				Call::Concat(c) => pieces(c).into_iter().map(Call::Concat).collect(),
			}
		}
		let mut out = Vec::new();
		if self.calls.len() == 1 {
			out.extend(call(&self.calls[0]).into_iter().map(|c| Self { calls: vec![c], ..self.clone() }));
		}
		else {
			// Halves.
			let (a, b) = self.calls.split_at(self.calls.len() / 2);
			out.push(Self { calls: a.to_vec(), ..self.clone() });
			out.push(Self { calls: b.to_vec(), ..self.clone() });
		}
		if self.look != 0 { out.push(Self { look: 0, ..self.clone() }); }
		if self.import != 0 { out.push(Self { import: 0, ..self.clone() }); }
		if self.edition != 2 { out.push(Self { edition: 2, ..self.clone() }); }
		out
	}
}

fn style() -> BoxedStrategy<Style> {
	prop_oneof![
		3 => select(ON).prop_map(|(w, _)| Style::Word(w.to_owned(), false)),
		2 => select(OFF).prop_map(|(w, _)| Style::Word(w.to_owned(), true)),
		1 => Just(Style::Word("reset".to_owned(), false)),
		4 => any::<u8>().prop_map(|n| Style::Num(n, false)),
		2 => any::<u8>().prop_map(|n| Style::Num(n, true)),
		4 => select(colors::NAMED).prop_map(|(n, _)| Style::Name(n, false)),
		2 => select(colors::NAMED).prop_map(|(n, _)| Style::Name(n, true)),
	].boxed()
}

/// (The merge is recursive, so the programs raise the compiler's limit on that.)
fn styles(min: usize) -> BoxedStrategy<Vec<Style>> {
	prop_oneof![20 => vec(style(), min..6), 4 => vec(style(), min..20), 1 => vec(style(), 20..200)].boxed()
}

fn piece() -> BoxedStrategy<Piece> {
	prop_oneof![
		5 => hc::gens::text_n(3).prop_filter("long", |s| s.len() < 2000).prop_map(Piece::Str),
		2 => hc::gens::plain().prop_map(|s| Piece::Raw(s.replace(['\r', '"'], ""))),
		1 => any::<char>().prop_map(Piece::Char),
		1 => any::<i64>().prop_map(|n| Piece::Int(n.max(i64::MIN + 1))),
		1 => (-5_i64..300).prop_map(Piece::Int),
		1 => any::<u32>().prop_map(Piece::Hex),
		1 => any::<bool>().prop_map(Piece::Bool),
		1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Piece::Float(a, b)),
		1 => hc::gens::word().prop_map(|w| Piece::Words(format!("w{}", w.replace(|c: char| ! c.is_ascii_alphanumeric(), "")))),
	].boxed()
}

fn call() -> BoxedStrategy<Call> {
	let leaf = prop_oneof![6 => styles(1).prop_map(Call::Csi), 1 => Just(Call::Csi(Vec::new()))].boxed();
	leaf.clone().prop_recursive(3, 12, 4, move |inner| {
		let part = prop_oneof![3 => piece(), 1 => inner.prop_map(|c| Piece::Call(Box::new(c)))].boxed();
		let parts = prop_oneof![12 => vec(part.clone(), 1..5), 1 => vec(part, 5..40)].boxed();
		prop_oneof![
			2 => styles(1).prop_map(Call::Csi),
			4 => (styles(1), parts.clone(), any::<bool>()).prop_map(|(s, c, t)| Call::Ansi(s, c, t)),
			4 => (0_u8..6, parts.clone(), any::<bool>()).prop_map(|(k, c, t)| Call::Short(k, c, t)),
			1 => parts.prop_map(Call::Concat),
		].boxed()
	}).boxed()
}

struct C13;
impl Prop for C13 {
	type Case = Program;
	const NAME: &'static str = "C13";
	const RULE: &'static str = "programs of up to 160 generated invocations (1-200 styles, 1-40 contents of every concat!-able kind, nesting up to 3 deep, three editions, five import styles, as constants, statics and expressions), plus every keyword on its own and every ordered pair of word styles, compiled and run; evaluations counts invocations, non-trivial = the program has an invocation with several styles and one with nested or several contents";
	fn strategy(&self) -> BoxedStrategy<Program> {
		(0_u8..3, 0_u8..5, 0_u8..16, vec(call(), 80..160)).prop_map(|(edition, import, look, calls)| Program { edition, import, look, calls }).boxed()
	}
	fn fixed(&self) -> Vec<Program> {
		// Every keyword by itself, and each opening/closing an ansi!.
		let mut all = vec![Style::Word("reset".to_owned(), false)];
		all.extend(ON.iter().map(|(w, _)| Style::Word((*w).to_owned(), false)));
		all.extend(OFF.iter().map(|(w, _)| Style::Word((*w).to_owned(), true)));
		let words = all.clone();
		for no in [false, true] {
			all.extend((0..=255).map(|n| Style::Num(n, no)));
			all.extend(colors::NAMED.iter().map(|(n, _)| Style::Name(*n, no)));
		}
		let mut calls = vec![Call::Csi(Vec::new())];
		calls.extend(all.iter().map(|s| Call::Csi(vec![s.clone()])));
		let singles = Program { edition: 2, import: 0, look: 0, calls };
		let mut calls = Vec::new();
		for a in &words { for b in &words { calls.push(Call::Csi(vec![a.clone(), b.clone()])); } }
		let pairs = Program { edition: 2, import: 1, look: 4, calls };
		let mut calls = Vec::new();
		for (k, s) in all.iter().enumerate() {
			calls.push(Call::Csi(vec![s.clone(), all[(k * 7 + 3) % all.len()].clone(), s.clone()]));
			calls.push(Call::Ansi(vec![all[(k * 5 + 1) % all.len()].clone(), s.clone()], vec![Piece::Str("x".to_owned()), Piece::Call(Box::new(Call::Csi(vec![s.clone()]))), Piece::Int(k as i64)], k % 2 == 0));
		}
		let mixed = Program { edition: 1, import: 2, look: 1, calls };
		vec![singles, pairs, mixed]
	}
	fn check(&self, c: &Program, obs: &mut Obs) -> Result<(), String> {
		obs.weight = c.calls.len() as u64;
		let many = c.calls.iter().any(|c| matches!(c, Call::Csi(s) | Call::Ansi(s, _, _) if 1 < s.len()));
		let deep = c.calls.iter().any(|c| matches!(c, Call::Ansi(_, p, _) | Call::Short(_, p, _) if 1 < p.len() || matches!(p[0], Piece::Call(_))));
		obs.nontrivial_if(many && deep);
		for c in &c.calls {
			obs.label(match c {
				Call::Csi(s) if s.is_empty() => "csi!()",
				Call::Csi(s) if s.len() == 1 => "csi!, one style",
				Call::Csi(_) => "csi!, several styles",
				Call::Ansi(..) => "ansi!",
				Call::Short(..) => "shortcut",
				Call::Concat(_) => "concat!",
			});
		}
		c.judge().map_err(|(_, e)| e)
	}
	fn shrink_iters(&self) -> u32 { 0 }
	fn minimize(&self, mut c: Program) -> Program {
		if let Err((Some(k), _)) = c.judge() { c.calls = vec![c.calls[k].clone()]; }
		let mut budget = 150_u32;
		'outer: loop {
			for s in c.smaller() {
				if budget == 0 { return c; }
				budget -= 1;
				if s.judge().is_err() { c = s; continue 'outer; }
			}
			return c;
		}
	}
}

fn main() { hc::main_for!(C13); }
