//! Text generators, built from fragments that matter to the code under test.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// Ordinary words, single- and multi-byte, narrow, wide and zero-width.
pub const PLAIN: &[&str] = &[
	"a", "b", "Z", "0", "7", "m", "K", "word", "Hello", "two words", " ", "  ", ":", ": ", ";", "m", "~", "@", "?",
	"é", "Björk", "ß", "œ", "Œ", "字", "漢字", "ｆ", "😀", "👩\u{200d}👩", "e\u{301}", "\u{301}", "\u{200b}", "\u{ad}",
	"\u{fdfd}", "\u{17d8}", "\u{2e3b}", "\u{1100}\u{1161}", "\u{7f}x", "İ", "ﬀ", "\u{10ffff}", "[", "]", "\\", "[0m", "]0;",
];

/// Control and whitespace fragments.
pub const CONTROL: &[&str] = &[
	"\n", "\n\n", "\r\n", "\r", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\0", "\x07", "\x08", "\u{9b}", "\u{9c}", "\u{7f}",
];

/// Well-formed sequences.
pub const SEQS: &[&str] = &[
	"\x1b[0m", "\x1b[1m", "\x1b[m", "\x1b[38;5;199m", "\x1b[1;91m", "\x1b[2J", "\x1b[~", "\x1b[@", "\x1b[?25h",
	"\x1b]0;title\x07", "\x1b]8;;http://x/\x1b\\", "\x1b]\x07", "\x1b]t\u{153}", "\x1b]0;a\x1b\x1b\\", "\x1b]0;字\x07", "\x1b[é1m",
];

/// Broken, nested or spliced pieces.
pub const BROKEN: &[&str] = &[
	"\x1b", "\x1b\x1b", "\x1b[", "\x1b]", "\x1b[3", "\x1b[38;5;", "\x1b]0;open", "\x1b]0;x\x1b", "\x1b\x1b[0m[31m", "\x1b\x1b]x\x07[0m",
	"\x1b\\", "\x1b[\x1b[0m", "\x1b(B", "\x1bM", "\x1b]a\x1b[0mb\x07", "\x1b[é", "\x1b[1\n;2m",
];

fn frag() -> BoxedStrategy<String> {
	prop_oneof![
		6 => select(PLAIN).prop_map(str::to_owned),
		1 => select(CONTROL).prop_map(str::to_owned),
		3 => select(SEQS).prop_map(str::to_owned),
		2 => select(BROKEN).prop_map(str::to_owned),
		1 => any::<char>().prop_map(String::from),
		1 => "[a-zA-Z0-9 ,.]{1,12}".prop_map_str(),
		1 => sequence(),
	].boxed()
}

/// A sequence with anything at all inside, finished or not.
pub fn sequence() -> BoxedStrategy<String> {
	let guts = vec(
		prop_oneof![
			4 => select("0123456789;:?<=>!\"#$%&'()*+,-./ ".chars().collect::<Vec<_>>()),
			3 => (0_u32..0x20).prop_map(|c| char::from_u32(c).unwrap_or('0')),
			2 => (0x7f_u32..0x100).prop_map(|c| char::from_u32(c).unwrap_or('0')),
			1 => any::<char>(),
			1 => select(vec!['\x1b', '\u{153}', '\u{152}', '\\', '\x07']),
		],
		0..6,
	);
	(select(vec!["\x1b[", "\x1b[", "\x1b]", "\x1b]", "\x1b", "\x1b\x1b[", "\x1b\x1b]"]), guts, prop_oneof![
		3 => (0x40_u32..0x7f).prop_map(|c| char::from_u32(c).unwrap_or('m').to_string()),
		2 => select(vec!["m", "\x07", "\x1b\\", "\u{153}", ""]).prop_map(str::to_owned),
	]).prop_map(|(a, g, z)| {
		let mut out = a.to_owned();
		out.extend(g);
		out.push_str(&z);
		out
	}).boxed()
}

trait StrRe { fn prop_map_str(self) -> BoxedStrategy<String>; }
impl StrRe for &'static str {
	/// Just enough of a regex: ASCII words of 1..=12.
	fn prop_map_str(self) -> BoxedStrategy<String> {
		vec(select("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ,.".chars().collect::<Vec<_>>()), 1..=12)
			.prop_map(|v| v.into_iter().collect())
			.boxed()
	}
}

/// Any text at all: the nastiest generator.
pub fn text() -> BoxedStrategy<String> { text_n(8) }

pub fn text_n(max: usize) -> BoxedStrategy<String> {
	prop_oneof![
		60 => Just(String::new()),
		480 => vec(frag(), 1..=max).prop_map(|v| v.concat()),
		60 => (frag(), 1_usize..120).prop_map(|(f, n)| f.repeat(n)),
		// Long enough to cross 8- and (rarely) 16-bit boundaries.
		2 => (frag(), prop_oneof![6 => 255_usize..260, 2 => 500_usize..1100, 1 => 8190_usize..8200, 1 => 65_534_usize..65_540]).prop_map(|(f, n)| {
			let n = n / f.len().clamp(1, 8);
			f.repeat(n.max(1))
		}),
	].boxed()
}

/// Text without any escape characters or control characters.
pub fn plain() -> BoxedStrategy<String> {
	prop_oneof![
		1 => Just(String::new()),
		6 => vec(select(PLAIN), 1..6).prop_map(|v| v.concat().replace('\u{7f}', "")),
	].boxed()
}

/// Word-like, non-empty, single-line.
pub fn word() -> BoxedStrategy<String> { "w".prop_map_str() }

/// Multi-line text: lines of fragments with assorted line endings.
pub fn lines() -> BoxedStrategy<String> {
	let line = (
		vec(
			prop_oneof![
				6 => select(PLAIN).prop_map(str::to_owned),
				3 => select(SEQS).prop_map(str::to_owned),
				2 => select(BROKEN).prop_map(str::to_owned),
				1 => any::<char>().prop_map(String::from),
				1 => sequence(),
			],
			0..7,
		).prop_map(|v| v.concat()),
		select(vec!["\n", "\r\n", "\n", "\r\n", "\n\r", ""]),
	);
	vec(line, 0..6).prop_map(|v| v.into_iter().map(|(a, b)| a + b).collect::<String>()).boxed()
}

/// `u32`s biased to boundaries.
pub fn edgy_u32() -> BoxedStrategy<u32> {
	prop_oneof![
		4 => 0_u32..20,
		2 => any::<u32>(),
		2 => select(vec![0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 65_535, 65_536, 999_999, 1_000_000, 16_777_216, 2_147_483_647, 2_147_483_648, 4_294_967_294, 4_294_967_295]),
		1 => (0_u32..32).prop_map(|s| 1_u32 << s),
	].boxed()
}

/// `u64`s biased to boundaries.
pub fn edgy_u64() -> BoxedStrategy<u64> {
	prop_oneof![
		4 => 0_u64..20,
		2 => any::<u64>(),
		2 => edgy_u32().prop_map(u64::from),
		1 => (0_u32..64, 0_u64..3).prop_map(|(s, d)| (1_u64 << s).wrapping_add(d).wrapping_sub(1)),
		1 => Just(u64::MAX),
	].boxed()
}

/// A string close to another: same length, same beginning, same end, …
pub fn near(s: &str, how: u8, n: u16) -> String {
	let mut v: Vec<char> = s.chars().collect();
	let at = if v.is_empty() { 0 } else { usize::from(n) % v.len() };
	match how {
		// Same length, one character differs.
		0 => if let Some(c) = v.get_mut(at) { *c = twin(*c); },
		1 => if let Some(c) = v.first_mut() { *c = twin(*c); },
		2 => if let Some(c) = v.last_mut() { *c = twin(*c); },
		// Same length, different case throughout.
		3 => for c in &mut v { if c.is_ascii_alphabetic() { *c = twin(*c); } },
		// Same characters, different order.
		4 => if ! v.is_empty() { v.rotate_left(at); },
		5 => v.reverse(),
		// One more, one less.
		6 => v.insert(at, '!'),
		7 => v.push('!'),
		8 => if ! v.is_empty() { v.remove(at); },
		9 => { v.pop(); },
		10 => v.truncate(at),
		11 => if v.len() < 2000 { v.extend_from_within(..); },
		// Same number of bytes.
		12 => return "x".repeat(s.len()),
		// Same number of characters.
		13 => return "\u{e9}".repeat(v.len()),
		_ => {},
	}
	v.into_iter().collect()
}

/// A character of the same length.
fn twin(c: char) -> char {
	if c.is_ascii_lowercase() { c.to_ascii_uppercase() }
	else if c.is_ascii_uppercase() { c.to_ascii_lowercase() }
	else if c.is_ascii_digit() { if c == '9' { '0' } else { char::from(c as u8 + 1) } }
	else { char::from_u32(c as u32 ^ 1).filter(|d| d.len_utf8() == c.len_utf8()).unwrap_or(c) }
}
