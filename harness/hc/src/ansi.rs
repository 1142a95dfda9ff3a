//! Reference ANSI grammar, written from the documentation:
//!
//! * CSI: `ESC [` … up to and including the first character in `@..=~`;
//! * OSC: `ESC ]` … up to and including the first BEL, `œ`, or `ESC \`;
//! * a sequence that is never closed runs to the end of the text.

use std::ops::Range;

/// One piece of a string.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Seg {
	/// A (visible or control) character outside any sequence.
	Char(usize, char),
	/// A whole sequence.
	Seq(Range<usize>),
}

/// Length in bytes of the sequence at the start of `s`, if there is one.
pub fn seq_len(s: &str) -> Option<usize> {
	if let Some(rest) = s.strip_prefix("\x1b[") {
		for (i, c) in rest.char_indices() {
			if ('@'..='~').contains(&c) { return Some(2 + i + 1); }
		}
		return Some(s.len());
	}
	if let Some(rest) = s.strip_prefix("\x1b]") {
		let mut best: Option<usize> = None;
		for stop in ["\x07", "\u{153}", "\x1b\\"] {
			if let Some(i) = rest.find(stop) {
				let end = 2 + i + stop.len();
				if best.is_none_or(|b| end < b) { best = Some(end); }
			}
		}
		return Some(best.unwrap_or(s.len()));
	}
	None
}

/// Split a string into characters and sequences.
pub fn segments(s: &str) -> Vec<Seg> {
	let mut out = Vec::new();
	let mut i = 0;
	while i < s.len() {
		if let Some(n) = seq_len(&s[i..]) {
			out.push(Seg::Seq(i..i + n));
			i += n;
		}
		else {
			let c = s[i..].chars().next().unwrap();
			out.push(Seg::Char(i, c));
			i += c.len_utf8();
		}
	}
	out
}

/// Does the text contain a CSI or OSC introducer?
pub fn has_ansi(s: &str) -> bool { s.contains("\x1b[") || s.contains("\x1b]") }

/// One pass: the characters outside sequences.
pub fn visible(s: &str) -> String {
	segments(s).into_iter().filter_map(|s| if let Seg::Char(_, c) = s { Some(c) } else { None }).collect()
}

/// The sequences only.
pub fn only_seqs(s: &str) -> Vec<&str> {
	segments(s).into_iter().filter_map(|g| if let Seg::Seq(r) = g { Some(&s[r]) } else { None }).collect()
}

/// Remove sequences, leftmost first, until none is left.
pub fn strip(s: &str) -> String {
	let mut s = s.to_owned();
	let mut from = 0;
	while let Some(i) = s.as_bytes()[from..].windows(2).position(|w| w == b"\x1b[" || w == b"\x1b]") {
		let i = from + i;
		let n = seq_len(&s[i..]).unwrap();
		s.replace_range(i..i + n, "");
		// The removal may have completed an introducer.
		from = i.saturating_sub(1);
	}
	s
}

/// Width of one character.
pub fn char_width(c: char) -> usize { unicode_width::UnicodeWidthChar::width(c).unwrap_or(0) }

/// Display width ignoring sequences.
pub fn width(s: &str) -> usize {
	segments(s).into_iter().map(|g| if let Seg::Char(_, c) = g { char_width(c) } else { 0 }).sum()
}

/// Longest prefix, in bytes, ending before the first character that no longer
/// fits (sequences and zero-width characters before it are kept).
pub fn length_width(s: &str, max: usize) -> usize {
	let mut w = 0;
	for g in segments(s) {
		if let Seg::Char(i, c) = g {
			w += char_width(c);
			if w > max { return i; }
		}
	}
	s.len()
}

/// Line terminator.
pub fn eol(s: &str) -> &str {
	if s.ends_with("\r\n") { "\r\n" }
	else if s.ends_with('\n') { "\n" }
	else { "" }
}

/// Reference fit.
pub fn fit(s: &str, width: usize) -> String {
	if width == 0 { return String::new(); }
	let mut out = String::new();
	for line in s.split_inclusive('\n') {
		let keep = length_width(line, width);
		if keep == line.len() { out.push_str(line); continue; }
		out.push_str(&line[..keep]);
		let end = eol(line);
		let cut = &line[keep..line.len() - end.len()];
		for q in only_seqs(cut) { out.push_str(q); }
		out.push_str(end);
	}
	out
}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn basics() {
		assert_eq!(strip("\x1b\x1b[0m[31mx"), "x");
		assert_eq!(visible("\x1b[1mHi\x1b]0;t\x07!"), "Hi!");
		assert_eq!(visible("a\x1b]x\x1b\x1b\\b"), "ab");
		assert_eq!(fit("\x1b[1mHello\x1b[0m \x1b[91mWorld\x1b[0m", 5), "\x1b[1mHello\x1b[0m\x1b[91m\x1b[0m");
	}
}
