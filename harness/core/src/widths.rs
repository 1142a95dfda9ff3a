//! C09, C10, C11: display widths.

use fyi_msg::{Msg, fit_to_width, length_width, width};
use hc::proptest::prelude::*;
use hc::proptest::sample::select;
use hc::{Obs, Prop, ansi, gens};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WidthCase {
	pub text: String,
	pub insert: Vec<(u16, u8)>,
}

pub struct C09;
impl Prop for C09 {
	type Case = WidthCase;
	const NAME: &'static str = "C09";
	const RULE: &'static str = "random text with well-formed and broken sequences (plus every Unicode scalar once, in blocks), compared with an independently segmented reference sum, and re-measured after inserting complete sequences between characters; non-trivial = contains a sequence or a non-ASCII character";
	fn strategy(&self) -> BoxedStrategy<WidthCase> {
		(prop_oneof![gens::text_n(12), gens::lines()], hc::proptest::collection::vec((any::<u16>(), any::<u8>()), 0..5))
			.prop_map(|(text, insert)| WidthCase { text, insert }).boxed()
	}
	fn fixed(&self) -> Vec<WidthCase> {
		// Every scalar value, in runs of 512.
		let all: Vec<char> = (0..=0x10_FFFF_u32).filter_map(char::from_u32).filter(|c| *c != '\x1b').collect();
		all.chunks(512).map(|c| WidthCase { text: c.iter().collect(), insert: vec![(7, 0), (400, 9)] }).collect()
	}
	fn check(&self, c: &WidthCase, obs: &mut Obs) -> Result<(), String> {
		let t = c.text.as_str();
		let segs = ansi::segments(t);
		let has = segs.iter().any(|s| matches!(s, ansi::Seg::Seq(_)));
		obs.nontrivial_if(has || ! t.is_ascii());
		obs.label_if(has, "has sequence");
		let want = ansi::width(t);
		let got = width(t);
		if got != want { return Err(format!("width({t:?}) = {got}, expected {want}")); }
		if got > t.len() { return Err(format!("width({t:?}) = {got} exceeds its length")); }
		let vis = ansi::visible(t);
		if ! ansi::has_ansi(&vis) && ! vis.ends_with('\x1b') && width(&vis) != want { return Err(format!("width of the visible part of {t:?} differs")); }
		// Insert complete sequences at boundaries outside sequences.
		let mut cur = t.to_owned();
		for (at, which) in &c.insert {
			let mut spots: Vec<usize> = ansi::segments(&cur).iter().map(|s| match s { ansi::Seg::Char(i, _) => *i, ansi::Seg::Seq(r) => r.start }).collect();
			// The end is only a safe spot when no sequence is left open there.
			if ansi::width(&format!("{cur}x")) == ansi::width(&cur) + 1 { spots.push(cur.len()); }
			// After a lone escape the insertion point is fine too: ESC ESC [ … is still ESC + sequence.
			let Some(spot) = spots.get(usize::from(*at) % spots.len().max(1)).copied() else { continue; };
			let seq = gens::SEQS[usize::from(*which) % gens::SEQS.len()];
			cur.insert_str(spot, seq);
			if ansi::width(&cur) != want { continue; } // (Text after it merged differently.)
			let got = width(&cur);
			if got != want { return Err(format!("width({cur:?}) = {got}, expected {want} as without the inserted sequence")); }
		}
		Ok(())
	}
}

fn some_width() -> BoxedStrategy<usize> {
	prop_oneof![
		8 => 0_usize..24,
		2 => 0_usize..200,
		1 => select(vec![0_usize, 1, 2, 255, 256, 65_535, usize::MAX - 1, usize::MAX]),
	].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LenCase {
	pub text: String,
	pub width: usize,
}

pub struct C10;
impl Prop for C10 {
	type Case = LenCase;
	const NAME: &'static str = "C10";
	const RULE: &'static str = "random text (wide, combining, sequences at every position) and every width up to a few columns past its own, plus random/huge widths, against the definition of the longest fitting prefix; non-trivial = the text has width, so some of the tried widths cut it";
	fn strategy(&self) -> BoxedStrategy<LenCase> {
		(prop_oneof![gens::text_n(10), gens::lines()], some_width()).prop_map(|(text, width)| LenCase { text, width }).boxed()
	}
	fn check(&self, c: &LenCase, obs: &mut Obs) -> Result<(), String> {
		let t = c.text.as_str();
		let total = ansi::width(t);
		obs.nontrivial_if(total != 0);
		obs.label_if(total > c.width && ! t.is_ascii(), "cut in non-ASCII text");
		let mut prev = 0;
		let widths = (0..=(total + 2).min(60)).chain(std::iter::once(c.width));
		for (k, w) in widths.enumerate() {
			let got = length_width(t, w);
			if got > t.len() || ! t.is_char_boundary(got) { return Err(format!("length_width({t:?}, {w}) = {got} is not a boundary")); }
			let want = ansi::length_width(t, w);
			if got != want { return Err(format!("length_width({t:?}, {w}) = {got}, expected {want}")); }
			if width(&t[..got]) > w { return Err(format!("length_width({t:?}, {w}) = {got}: prefix is {} wide", width(&t[..got]))); }
			if total <= w && got != t.len() { return Err(format!("length_width({t:?}, {w}) = {got} though everything fits")); }
			if k <= total + 2 && k <= 60 {
				if got < prev { return Err(format!("length_width({t:?}, {w}) = {got} shrank from {prev}")); }
				prev = got;
			}
		}
		Ok(())
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FitCase {
	pub text: String,
	pub width: usize,
	pub parts: Option<(u8, String, String)>,
}

pub struct C11;
impl Prop for C11 {
	type Case = FitCase;
	const NAME: &'static str = "C11";
	const RULE: &'static str = "random multi-line text (LF/CRLF/CR, wide/combining characters, sequences well-formed and broken anywhere) and random widths, against a per-line reference and the stated invariants; non-trivial = some line does not fit";
	fn strategy(&self) -> BoxedStrategy<FitCase> {
		(
			prop_oneof![
				80 => gens::lines(), 40 => gens::text_n(10), 20 => gens::plain(),
				1 => (gens::text_n(4), 2_usize..60).prop_map(|(t, n)| t.repeat(n.min(1500 / t.len().max(1)))),
			],
			some_width(),
			hc::proptest::option::weighted(0.8, 0_u8..26),
			hc::proptest::option::of((0_u8..10, gens::text_n(3), gens::text_n(3))),
		).prop_map(|(text, width, frac, parts)| {
			// Mostly narrower than the widest line.
			let widest = text.split_inclusive('\n').map(ansi::width).max().unwrap_or(0);
			let width = match frac {
				Some(f @ 0..=19) => widest * usize::from(f) / 19,
				// Or about what something measures.
				Some(f) if f < 23 => (widest + usize::from(f)).saturating_sub(21),
				Some(f) if f < 26 => (text.len() + usize::from(f)).saturating_sub(24),
				_ => width,
			};
			FitCase { text, width, parts }
		}).boxed()
	}
	fn check(&self, c: &FitCase, obs: &mut Obs) -> Result<(), String> {
		let (t, w) = (c.text.as_str(), c.width);
		let cut = t.split_inclusive('\n').any(|l| ansi::width(l) > w);
		obs.nontrivial_if(cut && w != 0);
		obs.label_if(cut && t.split_inclusive('\n').count() > 1, "multi-line cut");
		obs.label_if(cut && ansi::has_ansi(t), "cut with sequences");
		let out = fit_to_width(t, w);
		if w == 0 {
			return if out.is_empty() { Ok(()) } else { Err(format!("fit_to_width({t:?}, 0) = {out:?}")) };
		}
		let want = ansi::fit(t, w);
		if out != want { return Err(format!("fit_to_width({t:?}, {w}) = {out:?}, expected {want:?}")); }
		// Invariants, stated separately from the reference.
		if ! cut {
			if out != t { return Err(format!("fit_to_width({t:?}, {w}) changed text that fits")); }
			if ! matches!(out, Cow::Borrowed(_)) { return Err(format!("fit_to_width({t:?}, {w}) allocated although everything fits")); }
		}
		let a: Vec<&str> = t.split_inclusive('\n').collect();
		let b: Vec<&str> = out.split_inclusive('\n').collect();
		if a.len() != b.len() && ! t.is_empty() {
			// A last, unterminated line may legitimately become empty.
			if ! (b.len() + 1 == a.len() && ansi::eol(a[a.len() - 1]).is_empty() && ansi::length_width(a[a.len() - 1], w) == 0) {
				return Err(format!("fit_to_width({t:?}, {w}): {} lines became {}", a.len(), b.len()));
			}
		}
		for (x, y) in a.iter().zip(b.iter()) {
			// (A carriage return right before the cut ends up next to the break.)
			let cr = ansi::eol(x) == "\n" && ansi::eol(y) == "\r\n" && x[..ansi::length_width(x, w)].ends_with('\r');
			if ansi::eol(x) != ansi::eol(y) && ! cr { return Err(format!("fit_to_width({t:?}, {w}): line end of {x:?} became {y:?}")); }
			if ansi::width(y) > w { return Err(format!("fit_to_width({t:?}, {w}): line {y:?} is {} wide", ansi::width(y))); }
			if width(y) > w { return Err(format!("fit_to_width({t:?}, {w}): line {y:?} measures {} wide", width(y))); }
			let end = ansi::eol(x).len();
			let body = |s: &str| -> Vec<String> { let s = &s[..s.len() - end]; ansi::only_seqs(s).into_iter().map(str::to_owned).collect() };
			if body(x) != body(y) { return Err(format!("fit_to_width({t:?}, {w}): sequences of {x:?} became {y:?}")); }
		}
		let again = fit_to_width(&out, w);
		if again != out { return Err(format!("fit_to_width is not idempotent on {t:?}, {w}: {out:?} then {again:?}")); }
		// Msg::fitted is the same thing.
		if let Some((indent, p, s)) = &c.parts {
			let m = Msg::new(p.as_str(), t).with_suffix(s).with_indent(*indent).with_newline(*indent % 2 == 0);
			let want = ansi::fit(m.as_str(), w);
			if m.fitted(w) != want { return Err(format!("fitted({w}) of {:?} = {:?}, expected {want:?}", m.as_str(), m.fitted(w))); }
		}
		Ok(())
	}
}
