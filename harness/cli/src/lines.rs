//! Command lines and their effects.

use crate::model::{Meaning, commands, meaning};
use crate::run::{Env, Got, Sink, Source, fyi, show, stamp};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::proptest::sample::select;
use hc::{Obs, Prop, ansi};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Line { pub args: Vec<Vec<u8>>, pub input: Vec<u8>, pub env: Env }

// ---------------------------------------------------------------- generators

fn number(max: u64) -> BoxedStrategy<String> {
	prop_oneof![
		6 => (0..=max).prop_map(|n| n.to_string()),
		3 => (0..=max, 0_usize..5).prop_map(|(n, z)| format!("{}{n}", "0".repeat(z))),
		2 => (select(vec![" ", "\t", "\n", "\u{a0}", "  ", ""]), 0..=max, select(vec![" ", "\t", "\u{3000}", ""])).prop_map(|(a, n, b)| format!("{a}{n}{b}")),
		4 => select(vec!["256", "257", "300", "999", "1000", "65536", "4294967296", "4294967551", "18446744073709551616", "340282366920938463463374607431768211456", "-1", "+5", "", " ", "0x10", "1e2", "1.0", "1,0", "٣", "five", "5 5", "5\0", "0", "00", "255", "0255", "０"]).prop_map(|s| s.replace('\0', "")),
	].boxed()
}

/// A key with its value in one of the accepted forms.
fn with_value(short: &'static str, long: &'static str, v: BoxedStrategy<String>) -> BoxedStrategy<Vec<String>> {
	(v, 0_u8..5).prop_map(move |(v, f)| match f {
		0 => vec![short.to_owned(), v],
		1 => vec![long.to_owned(), v],
		2 if ! v.is_empty() && ! v.starts_with('=') => vec![format!("{short}{v}")],
		3 => vec![format!("{short}={v}")],
		_ => vec![format!("{long}={v}")],
	}).boxed()
}

fn arg_text() -> BoxedStrategy<String> { hc::gens::text_n(5).prop_map(|s| { let mut s = s.replace('\0', ""); let mut n = s.len().min(3000); while ! s.is_char_boundary(n) { n -= 1; } s.truncate(n); s }).boxed() }

fn prefixes() -> BoxedStrategy<String> {
	prop_oneof![3 => hc::gens::word(), 2 => arg_text(), 1 => select(vec!["", "-", "-p", "--", "--help", "-h", "=", "a=b", "X:", "Error"]).prop_map(str::to_owned)].boxed()
}

/// Texts that are not mistaken for a key.
fn message() -> BoxedStrategy<String> {
	prop_oneof![
		4 => hc::gens::word(),
		6 => arg_text(),
		1 => select(vec!["-", "---", "-x", "-5", "--bogus", "--bogus=1", "-é", "=", "--=", "--é", "help", "print", "error", "-1", "--stderrx", "--exitx=5", "--ex", "/", "Cargo.toml", " -h", " "]).prop_map(str::to_owned),
	].boxed()
}

fn flags() -> BoxedStrategy<Vec<String>> {
	select(vec!["-i", "--indent", "--stderr", "-t", "--timestamp", "-y", "--yes", "-i5", "--stderr=no", "--indent="]).prop_map(|s| vec![s.to_owned()]).boxed()
}

fn option() -> BoxedStrategy<Vec<String>> {
	prop_oneof![
		4 => flags(),
		2 => with_value("-e", "--exit", number(255)),
		2 => with_value("-c", "--prefix-color", number(255)),
		2 => with_value("-p", "--prefix", prefixes()),
	].boxed()
}

fn sinks() -> BoxedStrategy<Env> {
	let sink = || select(vec![Sink::Mem, Sink::Null, Sink::Full, Sink::Broken, Sink::Closed, Sink::ReadOnly]);
	prop_oneof![
		5 => Just(Env::PLAIN),
		1 => (sink(), sink(), select(vec![Source::File, Source::Pipe, Source::Dir, Source::Closed, Source::WriteOnly])).prop_map(|(out, err, inp)| Env { out, err, inp }),
	].boxed()
}

/// Arguments around one message.
fn around(cmd: BoxedStrategy<String>, msg: BoxedStrategy<String>) -> BoxedStrategy<Vec<Vec<u8>>> {
	(cmd, vec(option(), 0..5), msg, vec(option(), 0..4), vec((any::<u8>(), Just(String::new())), 0..2), hc::proptest::option::weighted(0.1, vec(message(), 0..3))).prop_map(|(c, a, m, b, blanks, end)| {
		let mut v: Vec<Vec<String>> = a;
		v.push(vec![m]);
		v.extend(b);
		for (at, s) in blanks { let k = usize::from(at) % (v.len() + 1); v.insert(k, vec![s]); }
		let mut out = vec![c];
		out.extend(v.concat());
		if let Some(e) = end { out.push("--".to_owned()); out.extend(e); }
		out.into_iter().map(String::into_bytes).collect()
	}).boxed()
}

fn printers() -> BoxedStrategy<String> {
	let all: Vec<String> = commands().into_iter().filter(|c| ! matches!(*c, "blank" | "confirm" | "print")).map(str::to_owned).collect();
	prop_oneof![2 => select(all), 1 => Just("print".to_owned())].boxed()
}

// ---------------------------------------------------------------- oracles

/// The timestamps that could be right.
fn stamps(g: &Got) -> Vec<String> { (g.from..=g.until).map(stamp).collect() }

fn streams(g: &Got, env: &Env, stderr: bool, want: &[String]) -> Result<(), String> {
	let (a, b) = if stderr { ((&g.err, env.err, "stderr"), (&g.out, env.out, "stdout")) } else { ((&g.out, env.out, "stdout"), (&g.err, env.err, "stderr")) };
	if a.1 == Sink::Mem && ! want.iter().any(|w| w.as_bytes() == &a.0[..]) { return Err(format!("{} was {}, expected {:?}", a.2, show(a.0), want[0].chars().take(600).collect::<String>())); }
	if ! b.0.is_empty() { return Err(format!("unexpected output on {}: {}", b.2, show(b.0))); }
	Ok(())
}

fn code(g: &Got, want: u8) -> Result<(), String> {
	if g.code == i32::from(want) { Ok(()) } else { Err(format!("exit status {}, expected {want}; stdout {}, stderr {}", g.code, show(&g.out), show(&g.err))) }
}

fn shown_args(args: &[Vec<u8>]) -> String { args.iter().map(|a| show(a)).collect::<Vec<_>>().join(" ") }

/// Everything except prompts.
fn judge(line: &Line, m: &Meaning, g: &Got) -> Result<(), String> {
	if g.read != 0 { return Err(format!("{} bytes of the input were read", g.read)); }
	match m {
		Meaning::Print { text, stderr, exit } => {
			code(g, *exit)?;
			streams(g, &line.env, *stderr, &stamps(g).iter().map(|s| text.render(s)).collect::<Vec<_>>())
		},
		Meaning::Blank { stderr, count } => {
			code(g, 0)?;
			if *count <= 1 << 22 { streams(g, &line.env, *stderr, &["\n".repeat(*count as usize)]) } else { Ok(()) }
		},
		Meaning::Version => {
			code(g, 0)?;
			streams(g, &line.env, false, &[format!("FYI v{}\n", version())])
		},
		Meaning::Help(cmd) => {
			code(g, 0)?;
			if ! g.err.is_empty() { return Err(format!("unexpected output on stderr: {}", show(&g.err))); }
			if line.env.out != Sink::Mem { return Ok(()); }
			let s = ansi::visible(&String::from_utf8_lossy(&g.out));
			if ! s.ends_with('\n') { return Err("the help does not end with a line break".to_owned()); }
			let mut need = vec![format!("FYI v{}", version()), "-h, --help".to_owned()];
			match cmd.as_deref() {
				None => {
					need.push("-V, --version".to_owned());
					for c in commands() { need.push(format!("\n    {c} ")); }
					need.push("fyi <SUBCOMMAND>".to_owned());
				},
				Some(c) => {
					need.push(format!("\n    fyi {c} ["));
					need.extend((match c {
						"blank" => &["--stderr", "-c, --count <num>"][..],
						"confirm" => &["-i, --indent", "-t, --timestamp", "-y, --yes", "<MSG>"],
						"print" => &["-i, --indent", "--stderr", "-t, --timestamp", "-e, --exit <num>", "-p, --prefix <txt>", "-c, --prefix-color <num>", "<MSG>"],
						_ => &["-i, --indent", "--stderr", "-t, --timestamp", "-e, --exit <num>", "<MSG>", ": Hello World"],
					}).iter().map(|s| (*s).to_owned()));
				},
			}
			if let Some(n) = need.iter().find(|n| ! s.contains(n.as_str())) { return Err(format!("the help for {cmd:?} does not mention {n:?}: {}", show(s.as_bytes()))); }
			if s.matches("USAGE:").count() != 1 { return Err(format!("the help for {cmd:?} explains several things")); }
			Ok(())
		},
		Meaning::Invalid(cmd) => error(g, &line.env, &format!("fyi {cmd} --help")),
		Meaning::Missing => error(g, &line.env, "essage"),
		Meaning::Confirm { .. } => unreachable!("prompts are judged elsewhere"),
	}
}

fn error(g: &Got, env: &Env, mention: &str) -> Result<(), String> {
	code(g, 1)?;
	if ! g.out.is_empty() { return Err(format!("unexpected output on stdout: {}", show(&g.out))); }
	if env.err != Sink::Mem { return Ok(()); }
	let s = String::from_utf8_lossy(&g.err);
	let pre = hc::colors::kind_prefix("Error", 9);
	let Some(rest) = s.strip_prefix(&pre).and_then(|s| s.strip_suffix('\n')) else { return Err(format!("not an error message: {}", show(&g.err))); };
	if rest.contains('\n') || ! ansi::visible(rest).contains(mention) { return Err(format!("the error does not mention {mention:?}: {}", show(&g.err))); }
	Ok(())
}

/// The version, as the package says.
fn version() -> &'static str {
	static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
	V.get_or_init(|| {
		let s = std::fs::read_to_string("/repo/fyi/Cargo.toml").unwrap();
		s.lines().find_map(|l| l.strip_prefix("version").map(|l| l.trim_matches([' ', '=', '"']).to_owned())).unwrap()
	})
}

// ---------------------------------------------------------------- C14

pub struct C14;
impl Prop for C14 {
	type Case = Line;
	const NAME: &'static str = "C14";
	const RULE: &'static str = "the fyi program run with every message subcommand and print, options in any order, number and form (short, long, attached, =, trailing junk on flags), odd and out-of-range numbers, hostile message and prefix texts, empty arguments, arguments after --, and stdout/stderr kept, discarded, full, broken, closed or read-only; both streams and the status compared with a model of the command line; non-trivial = two or more options, or a stream that does not work";
	fn strategy(&self) -> BoxedStrategy<Line> {
		(around(printers(), message()), sinks()).prop_map(|(args, env)| Line { args, input: b"yes\n".to_vec(), env }).boxed()
	}
	fn check(&self, line: &Line, obs: &mut Obs) -> Result<(), String> {
		let m = meaning(&line.args);
		// (A message may turn out to be an option after all: C16 has those.)
		let Meaning::Print { text, stderr, exit } = &m else { obs.label("not a message"); return Ok(()); };
		let g = fyi(&line.args, &line.input, &line.env).map_err(|e| format!("fyi {}: {e}", shown_args(&line.args)))?;
		judge(line, &m, &g).map_err(|e| format!("fyi {}: {e}", shown_args(&line.args)))?;
		obs.label_if(*stderr, "to stderr");
		obs.label_if(*exit != 0, "exit status");
		obs.label_if(text.stamp, "timestamp");
		obs.label_if(line.env != Env::PLAIN, "odd streams");
		obs.label_if(line.args[0] == b"print" && ! text.prefix.is_empty(), "custom prefix");
		obs.nontrivial_if(4 <= line.args.len() || line.env != Env::PLAIN);
		Ok(())
	}
}

// ---------------------------------------------------------------- C15

pub struct C15;
impl Prop for C15 {
	type Case = Line;
	const NAME: &'static str = "C15";
	const RULE: &'static str = "fyi confirm with all its options and random input (answers in odd case and spacing, near misses, blank, multi-byte and invalid lines, missing final line break, nothing at all) from a file, a pipe, a directory, a closed or a write-only descriptor; exit status and everything shown compared with a line model; non-trivial = at least one invalid line was rejected, or the input was unreadable";
	fn strategy(&self) -> BoxedStrategy<Line> {
		let pad = || select(vec!["", "", "", " ", "\t", "\r", "\u{a0}", "\u{3000}"]);
		let word = prop_oneof![
			5 => select(vec!["y", "Y", "yes", "YES", "yEs", "n", "N", "no", "NO", "nO", ""]).prop_map(str::to_owned),
			5 => select(vec!["ye", "yess", "yy", "nn", "non", "0", "1", "true", "y n", "ｙ", "ñ", "\0", "y\0", "-", "\u{200b}", "\u{feff}y", "ſ", "quit"]).prop_map(str::to_owned),
			2 => hc::gens::text_n(4).prop_map(|s| s.replace('\n', "")),
		];
		let l = prop_oneof![
			10 => (pad(), word, pad()).prop_map(|(a, w, b)| format!("{a}{w}{b}").into_bytes()),
			1 => (pad(), 0_usize..3000, select(vec!["y", "n", "No", "YES", "", "x"]), pad(), 0_usize..3000).prop_map(|(a, m, w, b, n)| format!("{}{w}{}", a.repeat(m), b.repeat(n)).into_bytes()),
			1 => select(vec![&b"\xff"[..], b"y\xff", b"\xc3", b"\xed\xa0\x80"]).prop_map(<[u8]>::to_vec),
		];
		let l = prop_oneof![
			20 => vec(l.clone(), 0..6),
			// Someone is persistent.
			1 => (l.clone(), 1_usize..200, vec(l, 0..4)).prop_map(|(l, n, rest)| std::iter::repeat_n(l, n).chain(rest).collect()),
		];
		let env = prop_oneof![
			6 => Just(Source::File), 3 => Just(Source::Pipe), 1 => select(vec![Source::Dir, Source::Closed, Source::WriteOnly]),
		];
		let sink = prop_oneof![9 => Just(Sink::Mem), 1 => select(vec![Sink::Null, Sink::Full, Sink::Broken, Sink::Closed, Sink::ReadOnly])];
		(around(Just("confirm".to_owned()).boxed(), message()), l, any::<bool>(), env, sink).prop_map(|(args, lines, last, inp, out)| {
			let mut input: Vec<u8> = lines.into_iter().flat_map(|mut l| { l.push(b'\n'); l }).collect();
			if last { input.pop(); }
			input.truncate(60_000);
			Line { args, input, env: Env { out, err: Sink::Mem, inp } }
		}).boxed()
	}
	fn check(&self, line: &Line, obs: &mut Obs) -> Result<(), String> {
		let Meaning::Confirm { text, yes } = meaning(&line.args) else { obs.label("not a question"); return Ok(()); };
		let what = format!("fyi {} < {}", shown_args(&line.args), show(&line.input));
		let g = fyi(&line.args, &line.input, &line.env).map_err(|e| format!("{what}: {e}"))?;
		let readable = matches!(line.env.inp, Source::File | Source::Pipe);
		let mut bad = 0_usize;
		let mut want = yes;
		if readable {
			for l in line.input.split_inclusive(|b| *b == b'\n') {
				match std::str::from_utf8(l).map(|s| s.to_lowercase()).as_deref().map(str::trim) {
					Ok("") => break,
					Ok("y" | "yes") => { want = true; break; },
					Ok("n" | "no") => { want = false; break; },
					_ => bad += 1,
				}
			}
		}
		code(&g, u8::from(! want)).map_err(|e| format!("{what}: {e}"))?;
		if ! g.err.is_empty() { return Err(format!("{what}: unexpected output on stderr: {}", show(&g.err))); }
		if line.env.out == Sink::Mem {
			let full = String::from_utf8(g.out.clone()).map_err(|_| format!("{what}: printed invalid UTF-8: {}", show(&g.out)))?;
			let hint = if yes { " [Y/n] " } else { " [y/N] " };
			let parse = |stamp: &str| -> Result<(), String> {
				let q = text.render(stamp);
				let q = q.strip_suffix('\n').unwrap_or(&q);
				let mut at = 0;
				for round in 0..=bad {
					let Some(r) = full[at..].strip_prefix(q) else { return Err(format!("round {round}: expected the question {q:?}, printed {:?}", &full[at..])); };
					let start = full.len() - r.len();
					at = (start..=full.len().min(start + 120)).filter(|e| full.is_char_boundary(*e)).rev()
						.find(|e| ansi::visible(&full[start..*e]) == hint)
						.ok_or_else(|| format!("round {round}: no hint {hint:?} in {r:?}"))?;
					if round < bad {
						let Some(n) = full[at..].find('\n') else { return Err(format!("no error line in {:?}", &full[at..])); };
						if ansi::visible(&full[at..at + n]).trim().is_empty() { return Err(format!("empty error line in {full:?}")); }
						at += n + 1;
					}
				}
				if at != full.len() { return Err(format!("extra output {:?} after {bad} invalid lines", &full[at..])); }
				Ok(())
			};
			let all: Vec<Result<(), String>> = stamps(&g).iter().map(|s| parse(s)).collect();
			if ! all.iter().any(Result::is_ok) { all.into_iter().next().unwrap().map_err(|e| format!("{what}: {e}"))?; }
		}
		obs.label_if(bad != 0, "invalid line");
		obs.label_if(! readable, "unreadable input");
		obs.label_if(yes, "default yes");
		obs.label_if(want, "yes");
		obs.nontrivial_if(bad != 0 || ! readable);
		Ok(())
	}
}

// ---------------------------------------------------------------- C16

pub struct C16;
impl Prop for C16 {
	type Case = Line;
	const NAME: &'static str = "C16";
	const RULE: &'static str = "the fyi program run with blank (any counts, up to unprintably many on streams that fail), help, version, no or unknown commands, and arbitrary mixtures of keys, values, texts and invalid UTF-8, with working and broken streams; both streams and the status compared with a model of the command line; non-trivial = anything but one bare command";
	fn strategy(&self) -> BoxedStrategy<Line> {
		let all: Vec<String> = commands().into_iter().map(str::to_owned).collect();
		let odd = select(vec!["-V", "--version", "-h", "--help", "help", "-Vx", "--version=1", "Print", "PRINT", "prints", "-", "--", "-i", "blank ", " print", "confirm=1", "--print", "custom", "none", "é", "warn"]).prop_map(str::to_owned);
		let cmd = move || prop_oneof![14 => select(all.clone()), 3 => odd.clone(), 1 => arg_text().prop_filter("not empty", |s| ! s.is_empty())].boxed();
		let tokens = prop_oneof![
			3 => message(),
			4 => option().prop_map(|v| v.join(" ")),
			3 => select(vec!["-h", "--help", "-c", "-e", "-p", "--count", "--exit", "--prefix", "--prefix-color", "-y", "-t", "--stderr", "-i", "--", "-V", "--version", "-hx", "--help=5"]).prop_map(str::to_owned),
			1 => Just(String::new()),
		].prop_map(String::into_bytes);
		let tokens = prop_oneof![
			12 => tokens,
			1 => select(vec![&b"\xff"[..], b"a\xffb", b"-p\xff", b"--prefix=\xff", b"-\xff", b"\xc3\x28", b"\xed\xa0\x80"]).prop_map(<[u8]>::to_vec),
		].boxed();
		let env = || prop_oneof![6 => sinks(), 1 => Just(Env { out: Sink::Full, .. Env::PLAIN }), 1 => Just(Env { out: Sink::Broken, .. Env::PLAIN })];
		// (Lines are printed in batches, whatever their size.)
		let batch = prop_oneof![
			(0_u32..17, 1_u64..4, 0_u64..3).prop_map(|(p, k, d)| ((k << p) + d).saturating_sub(1).to_string()),
			(select(vec![10_u64, 100, 1000, 10_000]), 1_u64..6, 0_u64..3).prop_map(|(p, k, d)| (k * p + d - 1).to_string()),
		];
		let count = move || prop_oneof![3 => number(40), 1 => number(70_000), 2 => batch.clone()].boxed();
		let blank = (
			vec(prop_oneof![3 => with_value("-c", "--count", count()), 1 => Just(vec!["--stderr".to_owned()]), 1 => message().prop_map(|m| vec![m])], 0..4), env(),
		).prop_map(|(v, env)| {
			let mut args = vec![b"blank".to_vec()];
			args.extend(v.concat().into_iter().map(String::into_bytes));
			Line { args, input: b"y\n".to_vec(), env }
		});
		let huge = (
			select(vec!["18446744073709551615", "9223372036854775808", "9223372036854775807", "1000000000000", "18446744073709551616"]),
			select(vec![Sink::Full, Sink::Broken]), any::<bool>(),
		).prop_map(|(n, s, err)| {
			let mut args = vec![b"blank".to_vec(), b"-c".to_vec(), n.as_bytes().to_vec()];
			if err { args.push(b"--stderr".to_vec()); }
			Line { args, input: Vec::new(), env: Env { out: s, err: s, inp: Source::File } }
		});
		let any_line = (hc::proptest::option::weighted(0.95, cmd()), vec(tokens, 0..5), env()).prop_map(|(c, t, env)| {
			let mut args: Vec<Vec<u8>> = Vec::new();
			// (What empty arguments before the command mean is nobody's business.)
			if let Some(c) = c { args.push(c.into_bytes()); args.extend(t); }
			Line { args, input: b"y\n".to_vec(), env }
		});
		prop_oneof![3 => blank, 1 => huge, 8 => any_line].boxed()
	}
	fn check(&self, line: &Line, obs: &mut Obs) -> Result<(), String> {
		let m = meaning(&line.args);
		if matches!(m, Meaning::Confirm { .. }) { obs.label("question"); return Ok(()); }
		let what = format!("fyi {}", shown_args(&line.args));
		if let Meaning::Blank { stderr, count } = m && (1 << 22) < count {
			// Only where writing fails at once.
			let s = if stderr { line.env.err } else { line.env.out };
			if ! matches!(s, Sink::Full | Sink::Broken) { obs.label("too much"); return Ok(()); }
		}
		let g = fyi(&line.args, &line.input, &line.env).map_err(|e| format!("{what}: {e}"))?;
		judge(line, &m, &g).map_err(|e| format!("{what}: {e}"))?;
		obs.label(match m {
			Meaning::Help(None) => "main help", Meaning::Help(_) => "command help", Meaning::Version => "version", Meaning::Blank { .. } => "blank lines",
			Meaning::Print { .. } => "message", Meaning::Confirm { .. } => "question", Meaning::Invalid(_) => "invalid", Meaning::Missing => "no message",
		});
		obs.label_if(line.env != Env::PLAIN, "odd streams");
		obs.nontrivial_if(2 <= line.args.len() || line.env != Env::PLAIN);
		Ok(())
	}
}
