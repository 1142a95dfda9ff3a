//! Reading frames off a screen and comparing them with the model.

use crate::model::*;
use hc::num;
use hc::vt::Term;

/// What kind of thing went wrong.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cat {
	/// Deadlock, livelock.
	Stuck,
	Panic,
	/// Return values.
	Ret,
	/// Reported count.
	Count,
	/// Summary wording or elapsed time.
	Summary,
	/// Something on the screen that is not a frame.
	Garbage,
	/// Drawn count.
	Drawn,
	Percent,
	Fill,
	Title,
	Tasks,
	Clock,
	/// Overflow, bad rewind.
	Fit,
	/// Full versus compact form, or drawn although impossible.
	Form,
	/// Missing or outdated after settling.
	Stale,
	/// More drawing than called for.
	Redraw,
	/// Leftovers or drawing after the end.
	Clean,
	/// Pushed messages.
	Push,
	Threads,
	Prompt,
}

#[derive(Debug, Clone)]
pub struct Bad { pub cat: Cat, pub msg: String }

/// A frame as seen on a screen.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Frame {
	Blank,
	Compact(String),
	Full { title: Option<usize>, time: String, fill: usize, empty: usize, done: String, total: String, pct: String, tasks: Vec<String> },
	Garbage(String),
}

fn bar_row(row: &str) -> Option<(String, usize, usize, String, String, String)> {
	let s = row.strip_prefix('[')?;
	let (time, s) = s.split_at_checked(8)?;
	let b = time.as_bytes();
	if ! (b[2] == b':' && b[5] == b':' && time.chars().filter(char::is_ascii_digit).count() == 6) { return None; }
	let s = s.strip_prefix("]  [")?;
	let (bars, s) = s.split_once(']')?;
	let fill = bars.chars().take_while(|c| *c == '#').count();
	let empty = bars.len() - fill;
	if ! bars[fill..].chars().all(|c| c == '-') { return None; }
	let s = s.strip_prefix("  ")?;
	let (done, s) = s.split_once('/')?;
	let (total, pct) = s.split_once("  ")?;
	let num = |s: &str| ! s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || c == ',');
	if ! num(done) || ! num(total) || ! pct_ok(pct) { return None; }
	Some((time.to_owned(), fill, empty, done.to_owned(), total.to_owned(), pct.to_owned()))
}

fn pct_ok(s: &str) -> bool {
	let Some(n) = s.strip_suffix('%') else { return false; };
	let Some((a, b)) = n.split_once('.') else { return false; };
	! a.is_empty() && b.len() == 2 && a.chars().chain(b.chars()).all(|c| c.is_ascii_digit())
}

pub fn parse(t: &Term) -> Frame {
	let mut rows: Vec<String> = t.grid[t.row..].iter().map(|r| Term::line(r)).collect();
	while rows.last().is_some_and(String::is_empty) { rows.pop(); }
	if rows.is_empty() { return Frame::Blank; }
	if rows.len() == 1 && let Some(p) = rows[0].strip_prefix(" » ") && pct_ok(p) { return Frame::Compact(p.to_owned()); }
	for (i, row) in rows.iter().enumerate().take(2) {
		if let Some((time, fill, empty, done, total, pct)) = bar_row(row) {
			let mut tasks = Vec::new();
			for r in &rows[i + 1..] {
				match r.strip_prefix("    ↳ ") {
					Some(x) => tasks.push(x.to_owned()),
					// (An all-blank label.)
					None if r == "    ↳" => tasks.push(String::new()),
					None => return Frame::Garbage(format!("{rows:?}")),
				}
			}
			return Frame::Full { title: (i == 1).then_some(t.row), time, fill, empty, done, total, pct, tasks };
		}
	}
	Frame::Garbage(format!("{rows:?}"))
}

/// Usable width and height.
pub fn usable(size: Option<(u16, u16)>) -> Option<(usize, usize)> {
	let (c, r) = size?;
	let w = usize::from(c.saturating_sub(1)).min(255);
	let h = usize::from(r.min(255)).saturating_sub(1);
	if w == 0 || h == 0 { None } else { Some((w, h)) }
}

fn pct_matches(shown: &str, done: u64, total: u64) -> bool {
	let Ok(p) = shown.trim_end_matches('%').parse::<f64>() else { return false; };
	#[expect(clippy::cast_precision_loss, reason = "32 bits.")]
	let want = if total == 0 { 0.0 } else { done as f64 / total as f64 * 100.0 };
	(p - want).abs() <= 0.0056
}

/// Expected row for some text, as a terminal would show it.
fn as_row(text: &str, cols: usize) -> Vec<(String, Vec<String>)> {
	let mut t = Term::new(cols.max(2), 2);
	t.feed(text.as_bytes());
	t.styled(&t.grid[0])
}

fn as_text(text: &str, cols: usize) -> String {
	let mut t = Term::new(cols.max(2), 2);
	t.feed(text.as_bytes());
	Term::line(&t.grid[0])
}

/// Task rows a state calls for; `None` = either way is fine.
fn task_rows(m: &Model, has_title: bool, w: usize, h: usize) -> Vec<String> {
	let cap = w.saturating_sub(12);
	if cap < 2 || h < usize::from(has_title) + 1 + m.tasks.len() { return Vec::new(); }
	m.tasks.iter().filter_map(|t| {
		let keep = hc::ansi::length_width(t, cap);
		if keep == 0 { None }
		else { Some(as_text(&format!("    ↳ {}", &t[..keep]), w + 1).get(4 + "↳ ".len()..).unwrap_or("").to_owned()) }
	}).collect()
}

/// Smallest width the full bar row needs.
fn bare_width(f: &Frame) -> usize {
	if let Frame::Full { done, total, pct, .. } = f { 19 + done.len() + total.len() + pct.len() } else { 0 }
}

fn bare_of(m: &Model) -> usize {
	let p = format!("{:.2}%", m.done as f64 / m.total.max(1) as f64 * 100.0);
	19 + num::commas(m.done.into()).len() + num::commas(m.total.into()).len() + p.len()
}

/// Compare a drawn frame with the states it may stand for, on one size.
#[expect(clippy::too_many_lines, reason = "One component after the other.")]
pub fn compare(t: &Term, f: &Frame, states: &[&Model], size: (u16, u16), secs: Option<(u64, u64)>) -> Vec<Bad> {
	let mut bad = Vec::new();
	macro_rules! bad { ($cat:ident, $($t:tt)+) => (bad.push(Bad { cat: Cat::$cat, msg: format!($($t)+) })) }
	let Some((w, h)) = usable(Some(size)) else {
		if *f != Frame::Blank { bad!(Form, "drew {f:?} on a {size:?} terminal"); }
		return bad;
	};
	if states.iter().all(|s| ! s.running) && *f != Frame::Blank { bad!(Clean, "drew {f:?} although the run had ended"); return bad; }
	let counts: Vec<(u64, u64)> = states.iter().map(|s| (s.done, s.total)).collect();
	match f {
		Frame::Blank => {},
		Frame::Garbage(g) => bad!(Garbage, "not a frame: {g}"),
		Frame::Compact(p) => {
			if w < 10 { bad!(Form, "drew {f:?} on a {size:?} terminal"); }
			if 40 <= w && states.iter().all(|s| bare_of(s) + 1 < w) { bad!(Form, "only the percentage was drawn although there is room: {f:?} on {size:?}"); }
			if ! counts.iter().any(|(d, t)| pct_matches(p, *d, *t)) { bad!(Percent, "percentage {p} for {counts:?}"); }
		},
		Frame::Full { title, time, fill, empty, done, total, pct, tasks } => {
			if size.0 < 40 { bad!(Form, "full frame on a {size:?} terminal"); }
			if ! counts.iter().any(|(d, t)| *done == num::commas((*d).into()) && *total == num::commas((*t).into())) {
				bad!(Drawn, "drawn count {done}/{total}, expected one of {counts:?}");
			}
			if ! counts.iter().any(|(d, t)| pct_matches(pct, *d, *t)) { bad!(Percent, "percentage {pct} for {counts:?}"); }
			let space = w.saturating_sub(bare_width(f));
			if space < 10 {
				if fill + empty != 0 { bad!(Fill, "bar {fill}+{empty} in a space of {space}"); }
			}
			else {
				if fill + empty != space { bad!(Fill, "bar {fill}+{empty} does not fill the space of {space}"); }
				let want: Vec<u64> = counts.iter().map(|(d, t)| if *t == 0 { 0 } else { d * space as u64 / t }).collect();
				if ! want.contains(&(*fill as u64)) { bad!(Fill, "bar filled {fill} of {space}, expected {want:?} for {counts:?}"); }
			}
			if let Some((lo, hi)) = secs && ! (lo..=hi).any(|s| *time == num::clock(s)) {
				bad!(Clock, "elapsed {time}, expected {}..={}", num::clock(lo), num::clock(hi));
			}
			// Title.
			let shown: Vec<Option<String>> = states.iter().map(|s| {
				if h < 2 { return None; }
				s.title.as_ref().map(|t| t.shown(w)).filter(|t| ! t.is_empty())
			}).collect();
			let got = title.map(|r| t.styled(&t.grid[r]));
			if ! shown.iter().any(|s| s.as_ref().map(|s| as_row(s, w + 1)) == got) {
				bad!(Title, "title {got:?}, expected one of {shown:?}");
			}
			// Tasks.
			let want: Vec<Vec<String>> = states.iter().map(|s| task_rows(s, title.is_some(), w, h)).collect();
			if ! want.contains(tasks) { bad!(Tasks, "tasks {tasks:?}, expected one of {want:?} on {size:?}"); }
		},
	}
	// Geometry.
	if t.row != 0 || t.col != 0 { bad!(Fit, "the cursor ends up at row {} column {} of the frame", t.row, t.col); }
	if t.wrapped != 0 || t.scrolled != 0 { bad!(Fit, "the frame wraps {} times and scrolls {} lines on {size:?}: {f:?}", t.wrapped, t.scrolled); }
	if let Some(r) = t.grid.iter().find(|r| w < r.len()) { bad!(Fit, "a line of {} columns on a {size:?} terminal: {:?}", r.len(), Term::line(r)); }
	if ! t.odd.is_empty() { bad!(Garbage, "odd output: {:?}", t.odd); }
	bad
}

/// Checks that need no model.
pub fn geometry(t: &Term, f: &Frame, size: (u16, u16)) -> Vec<Bad> {
	let mut bad = Vec::new();
	let Some((w, _)) = usable(Some(size)) else { return bad; };
	if let Frame::Garbage(g) = f { bad.push(Bad { cat: Cat::Garbage, msg: format!("not a frame: {g}") }); }
	if t.row != 0 || t.col != 0 || t.wrapped != 0 || t.scrolled != 0 || t.grid.iter().any(|r| w < r.len()) || ! t.odd.is_empty() {
		bad.push(Bad { cat: Cat::Fit, msg: format!("bad frame on {size:?}: cursor {},{} wraps {} scrolls {} {:?} {f:?}", t.row, t.col, t.wrapped, t.scrolled, t.odd) });
	}
	bad
}
