//! A small terminal emulator: enough of a VT100 to judge what ends up on the
//! screen and in the scrollback.

use crate::ansi::char_width;
use std::collections::HashMap;

/// One screen cell: a character (or the right half of one), any combining
/// characters, and the style it was printed in.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cell { pub ch: char, pub extra: Option<Box<String>>, pub cont: bool, pub style: u16 }

impl Cell { fn blank() -> Self { Self { ch: ' ', extra: None, cont: false, style: 0 } } }

#[derive(Debug, Clone)]
pub struct Term {
	pub cols: usize,
	pub rows: usize,
	pub row: usize,
	pub col: usize,
	/// Pending wrap (the cursor is parked past the last column).
	pub wrap: bool,
	/// Rows; cells past the end of one are blank.
	pub grid: Vec<Vec<Cell>>,
	pub scrollback: Vec<Vec<Cell>>,
	pub cursor_hidden: bool,
	/// SGR parameters in force (empty after a reset).
	pub sgr: Vec<String>,
	/// Set when something wrapped at the right edge.
	pub wrapped: u32,
	/// Set when something unexpected was received.
	pub odd: Vec<String>,
	/// Lines scrolled off the top.
	pub scrolled: u32,
	styles: HashMap<Vec<String>, u16>,
	style: u16,
	pending: Vec<u8>,
}

impl Term {
	pub fn new(cols: usize, rows: usize) -> Self {
		Self {
			cols, rows, row: 0, col: 0, wrap: false,
			grid: vec![Vec::new(); rows],
			scrollback: Vec::new(),
			cursor_hidden: false,
			sgr: Vec::new(),
			wrapped: 0,
			odd: Vec::new(),
			scrolled: 0,
			styles: HashMap::from([(Vec::new(), 0)]),
			style: 0,
			pending: Vec::new(),
		}
	}

	/// Bytes of an unfinished sequence or character.
	pub fn has_pending(&self) -> bool { ! self.pending.is_empty() }

	/// Style parameters of a cell style number.
	pub fn style(&self, n: u16) -> Vec<String> {
		self.styles.iter().find(|(_, v)| **v == n).map(|(k, _)| k.clone()).unwrap_or_default()
	}

	fn newline(&mut self) {
		self.wrap = false;
		if self.row + 1 >= self.rows {
			let top = self.grid.remove(0);
			self.scrollback.push(top);
			self.grid.push(Vec::new());
			self.scrolled += 1;
		}
		else { self.row += 1; }
	}

	fn put(&mut self, c: char) {
		let w = char_width(c);
		if w == 0 {
			// Combining: attach to the previous cell.
			let (r, mut k) = (self.row, if self.wrap { self.cols - 1 } else { self.col.saturating_sub(1) });
			if c.is_control() || ! (self.wrap || self.col != 0) { return; }
			self.reach(r, k);
			while k > 0 && self.grid[r][k].cont { k -= 1; }
			self.grid[r][k].extra.get_or_insert_default().push(c);
			return;
		}
		if self.wrap || self.col + w > self.cols {
			self.wrapped += 1;
			self.newline();
			self.col = 0;
		}
		let r = self.row;
		if self.col + w > self.cols { self.odd.push(format!("char wider than screen {c:?}")); return; }
		self.reach(r, self.col + w - 1);
		let style = self.style;
		self.grid[r][self.col] = Cell { ch: c, extra: None, cont: false, style };
		for i in 1..w { self.grid[r][self.col + i] = Cell { ch: ' ', extra: None, cont: true, style }; }
		self.col += w;
		if self.col >= self.cols { self.col = self.cols - 1; self.wrap = true; }
	}

	/// Make sure a cell exists.
	fn reach(&mut self, row: usize, col: usize) {
		if self.grid[row].len() <= col { self.grid[row].resize(col + 1, Cell::blank()); }
	}

	fn erase_below(&mut self) {
		let (r, c) = (self.row, if self.wrap { self.cols } else { self.col });
		self.grid[r].truncate(c);
		for row in &mut self.grid[r + 1..] { row.clear(); }
	}

	/// Feed raw bytes. Line feeds imply carriage returns (as with a tty's
	/// ONLCR processing).
	pub fn feed(&mut self, bytes: &[u8]) {
		self.pending.extend_from_slice(bytes);
		let buf = std::mem::take(&mut self.pending);
		let (txt, rest) = match std::str::from_utf8(&buf) {
			Ok(s) => (s.to_owned(), Vec::new()),
			Err(e) => {
				let good = e.valid_up_to();
				if e.error_len().is_some() { self.odd.push("invalid UTF-8".to_owned()); }
				(String::from_utf8_lossy(&buf[..good]).into_owned(), if e.error_len().is_some() { Vec::new() } else { buf[good..].to_vec() })
			},
		};
		let mut i = 0;
		while i < txt.len() {
			let s = &txt[i..];
			if s.starts_with("\x1b[") {
				// Parameters then a final byte.
				let body = &s[2..];
				match body.char_indices().find(|(_, c)| ('@'..='~').contains(c)) {
					Some((k, f)) => {
						self.csi(&body[..k], f);
						i += 2 + k + 1;
						continue;
					},
					None => { self.pending.extend_from_slice(s.as_bytes()); break; },
				}
			}
			if s.starts_with("\x1b]") {
				match crate::ansi::seq_len(s) {
					Some(n) if n < s.len() || s.ends_with('\x07') || s.ends_with("\x1b\\") || s.ends_with('\u{153}') => { i += n; continue; },
					_ => { self.pending.extend_from_slice(s.as_bytes()); break; },
				}
			}
			if s == "\x1b" { self.pending.extend_from_slice(s.as_bytes()); break; }
			let c = s.chars().next().unwrap();
			i += c.len_utf8();
			match c {
				'\n' => { self.newline(); self.col = 0; },
				'\r' => { self.col = 0; self.wrap = false; },
				'\t' => { self.col = ((self.col / 8 + 1) * 8).min(self.cols - 1); },
				'\x08' => { self.col = self.col.saturating_sub(1); self.wrap = false; },
				'\x1b' => { self.odd.push("lone escape".to_owned()); },
				c => self.put(c),
			}
		}
		self.pending.extend_from_slice(&rest);
	}

	fn csi(&mut self, params: &str, f: char) {
		match (params, f) {
			("" | "0", 'J') => self.erase_below(),
			(n, 'A') => {
				let n: usize = if n.is_empty() { 1 } else { n.parse().unwrap_or_else(|_| { self.odd.push(format!("A {n:?}")); 0 }) };
				let n = n.max(1);
				if n > self.row { self.odd.push(format!("cursor up {n} from row {}", self.row)); }
				self.row = self.row.saturating_sub(n);
				self.wrap = false;
			},
			(p, 'm') => {
				for x in p.split(';') {
					if x.is_empty() || x == "0" { self.sgr.clear(); }
					else { self.sgr.push(x.to_owned()); }
				}
				let n = u16::try_from(self.styles.len()).unwrap_or(u16::MAX);
				self.style = *self.styles.entry(self.sgr.clone()).or_insert(n);
			},
			("?25", 'l') => { self.cursor_hidden = true; },
			("?25", 'h') => { self.cursor_hidden = false; },
			(p, f) => { self.odd.push(format!("CSI {p:?} {f:?}")); },
		}
	}

	/// Start over with a new size: a blank screen, cursor at the top left.
	/// (What happens to old contents differs between terminals.)
	pub fn resize(&mut self, cols: usize, rows: usize) {
		let old = std::mem::replace(self, Self::new(cols, rows));
		self.cursor_hidden = old.cursor_hidden;
		self.sgr = old.sgr;
		self.styles = old.styles;
		self.style = old.style;
		self.odd = old.odd;
		self.pending = old.pending;
	}

	/// More room, below and to the right.
	pub fn grow(&mut self, cols: usize, rows: usize) {
		assert!(self.cols <= cols && self.rows <= rows, "not larger");
		self.grid.resize(rows, Vec::new());
		self.cols = cols;
		self.rows = rows;
	}

	/// What is at and below the cursor, as if on a screen of its own.
	pub fn live_area(&self) -> Self {
		Self {
			cols: self.cols, rows: self.rows, row: 0, col: self.col, wrap: self.wrap,
			grid: self.grid[self.row..].to_vec(),
			scrollback: Vec::new(),
			cursor_hidden: self.cursor_hidden,
			sgr: self.sgr.clone(),
			wrapped: 0,
			odd: self.odd.clone(),
			scrolled: 0,
			styles: self.styles.clone(),
			style: self.style,
			pending: self.pending.clone(),
		}
	}

	/// Text of a row, right-trimmed.
	pub fn line(row: &[Cell]) -> String {
		let mut s = String::with_capacity(row.len());
		for c in row {
			if c.cont { continue; }
			s.push(c.ch);
			if let Some(x) = &c.extra { s.push_str(x); }
		}
		s.truncate(s.trim_end_matches(' ').len());
		s
	}

	/// Text and style of a row's cells, right-trimmed.
	pub fn styled(&self, row: &[Cell]) -> Vec<(String, Vec<String>)> {
		let mut out: Vec<(String, Vec<String>)> = Vec::new();
		for c in row {
			if c.cont { continue; }
			let st = self.style(c.style);
			let mut t = c.ch.to_string();
			if let Some(x) = &c.extra { t.push_str(x); }
			match out.last_mut() {
				Some(l) if l.1 == st => l.0.push_str(&t),
				_ => out.push((t, st)),
			}
		}
		while let Some(l) = out.last_mut() {
			l.0.truncate(l.0.trim_end_matches(' ').len());
			if l.0.is_empty() { out.pop(); } else { break; }
		}
		out
	}

	/// Screen lines, right-trimmed.
	pub fn screen(&self) -> Vec<String> { self.grid.iter().map(|r| Self::line(r)).collect() }

	/// Everything: scrollback then screen, trailing blank lines removed.
	pub fn all_lines(&self) -> Vec<String> {
		let mut v: Vec<String> = self.scrollback.iter().map(|r| Self::line(r)).chain(self.screen()).collect();
		while v.last().is_some_and(String::is_empty) { v.pop(); }
		v
	}
}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn basics() {
		let mut t = Term::new(10, 3);
		t.feed(b"one\ntwo\n\x1b[1mthree\x1b[0m\r\x1b[1A\x1b[Jx");
		assert_eq!(t.all_lines(), vec!["one", "x"]);
		t.feed("字字字字字字".as_bytes());
		assert_eq!(t.wrapped, 1);
	}
}
