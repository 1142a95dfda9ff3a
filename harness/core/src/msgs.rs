//! C01, C02, C03, C04, C06: messages.

use crate::model::*;
use fyi_msg::{AnsiColor, Msg, MsgKind};
use hc::proptest::collection::vec;
use hc::proptest::prelude::*;
use hc::{Obs, Prop, ansi, colors, gens};
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, HashMap};

/// A build history.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
	pub ctor: Ctor,
	pub ops: Vec<(Op, bool)>,
}

impl History {
	pub fn strategy(max: usize) -> BoxedStrategy<Self> {
		(ctor(), vec((op(), any::<bool>()), 0..=max)).prop_map(|(ctor, ops)| Self { ctor, ops }).boxed()
	}

	pub fn play(&self) -> Result<(Msg, Model), String> {
		let (mut msg, mut model) = self.ctor.build();
		agree(&msg, &model, "after construction")?;
		for (i, (op, builder)) in self.ops.iter().enumerate() {
			op.apply(&mut msg, &mut model, *builder).map_err(|e| format!("op {i} {op:?}: {e}"))?;
			agree(&msg, &model, &format!("after op {i} {op:?}"))?;
		}
		Ok((msg, model))
	}
}

// ---------------------------------------------------------------- C01

pub struct C01;
impl Prop for C01 {
	type Case = History;
	const NAME: &'static str = "C01";
	const RULE: &'static str = "random constructor + up to 14 random set_/with_ edits with arbitrary Unicode/ANSI contents, compared with a six-string model after every step; non-trivial = at least three edits of at least two different parts";
	fn strategy(&self) -> BoxedStrategy<History> { History::strategy(14) }
	fn check(&self, case: &History, obs: &mut Obs) -> Result<(), String> {
		let mut kinds: Vec<_> = case.ops.iter().map(|(o, _)| std::mem::discriminant(o)).collect();
		kinds.sort_by_key(|d| format!("{d:?}"));
		kinds.dedup();
		obs.nontrivial_if(case.ops.len() >= 3 && kinds.len() >= 2);
		obs.label_if(case.ops.iter().any(|(o, _)| matches!(o, Op::Timestamp(true))), "timestamp on");
		obs.label_if(case.ops.iter().any(|(o, _)| matches!(o, Op::Strip)), "strip");
		let (msg, model) = case.play()?;
		// Ownership exits.
		if msg.clone().into_string() != model.text() { return Err("into_string differs".to_owned()); }
		if msg.into_bytes() != model.text().into_bytes() { return Err("into_bytes differs".to_owned()); }
		Ok(())
	}
}

// ---------------------------------------------------------------- C02

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PrefixCase {
	pub prefix: String,
	pub color: u8,
	pub kind: u8,
	pub msg: String,
	pub base: History,
}

pub struct C02;
impl Prop for C02 {
	type Case = PrefixCase;
	const NAME: &'static str = "C02";
	const RULE: &'static str = "random prefix text, color, kind and message, applied through every accepted prefix type and every entry point onto a random existing message, compared with the documented rendering; non-trivial = non-empty prefix";
	fn strategy(&self) -> BoxedStrategy<PrefixCase> {
		(prop_oneof![gens::text_n(5), gens::word()], any::<u8>(), 0_u8..15, gens::text_n(4), History::strategy(4))
			.prop_map(|(prefix, color, kind, msg, base)| PrefixCase { prefix, color, kind, msg, base }).boxed()
	}
	fn fixed(&self) -> Vec<PrefixCase> {
		// All colors, all kinds.
		(0..=255_u8).map(|color| PrefixCase {
			prefix: "Prefix".to_owned(), color, kind: color % 15, msg: "message".to_owned(),
			base: History { ctor: Ctor::From("base".to_owned()), ops: Vec::new() },
		}).collect()
	}
	fn check(&self, c: &PrefixCase, obs: &mut Obs) -> Result<(), String> {
		obs.nontrivial_if(! c.prefix.is_empty());
		obs.label_if(c.prefix.is_empty(), "empty prefix");
		let p = c.prefix.as_str();
		let owned = c.prefix.clone();
		let cow_b: Cow<str> = Cow::Borrowed(p);
		let cow_o: Cow<str> = Cow::Owned(owned.clone());
		let color = AnsiColor::from_u8(c.color);

		let (base, model) = c.base.play()?;

		macro_rules! forms {
			($want:expr, $($form:expr),+ $(,)?) => ($({
				let want: &str = $want;
				let form = stringify!($form);
				let full = format!("{want}{}", c.msg);
				let a = Msg::new($form, &c.msg);
				if a != full.as_str() { return Err(format!("Msg::new({form}): {:?} expected {full:?}", a.as_str())); }
				let mut m2 = model.clone();
				m2.prefix = want.to_owned();
				let mut b = base.clone();
				b.set_prefix($form);
				agree(&b, &m2, concat!("set_prefix ", stringify!($form)))?;
				agree(&base.clone().with_prefix($form), &m2, concat!("with_prefix ", stringify!($form)))?;
				// And it can be edited afterwards.
				b.set_msg("x");
				m2.msg = "x".to_owned();
				agree(&b, &m2, concat!("set_msg after set_prefix ", stringify!($form)))?;
			})+);
		}
		let plain = colors::prefix(p, None);
		forms!(&plain, p, owned.clone(), &owned, cow_b.clone(), &cow_b, cow_o.clone(), &cow_o);
		let fancy = colors::prefix(p, Some(c.color));
		forms!(&fancy,
			(p, c.color), (owned.clone(), c.color), (&owned, c.color), (cow_b.clone(), c.color), (&cow_b, c.color), (&cow_o, c.color),
			(p, color), (owned.clone(), color), (&owned, color), (cow_b.clone(), color), (&cow_b, color), (cow_o.clone(), color),
		);

		// Kinds.
		let kind = kind_of(c.kind);
		let kp = Prefix::Kind(c.kind).rendered();
		forms!(&kp, kind);
		let full = format!("{kp}{}", c.msg);
		if kind.into_msg(&c.msg) != full.as_str() { return Err(format!("into_msg {kind:?}")); }
		if shortcut(c.kind, &c.msg) != format!("{full}\n").as_str() { return Err(format!("shortcut {kind:?}: {:?}", shortcut(c.kind, &c.msg).as_str())); }
		if let Some((name, _, col)) = colors::KINDS.get(usize::from(c.kind)) {
			if kind.as_str() != *name || kind.to_string() != *name || kind.is_empty() { return Err(format!("{kind:?} name {:?}", kind.as_str())); }
			if kind.prefix_color().map(|x| x as u8) != Some(*col) { return Err(format!("{kind:?} color {:?}", kind.prefix_color())); }
		}
		else {
			if ! kind.as_str().is_empty() || ! kind.is_empty() || kind.prefix_color().is_some() || kind != MsgKind::default() {
				return Err("MsgKind::None should be empty".to_owned());
			}
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C03

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StripCase {
	pub before: History,
	pub chained: bool,
	pub after: Vec<(Op, bool)>,
}

pub struct C03;
impl Prop for C03 {
	type Case = StripCase;
	const NAME: &'static str = "C03";
	const RULE: &'static str = "random message history with well-formed, open, nested and spliced CSI/OSC sequences in every part, stripped, checked against a reference stripper, stripped again, then edited further; non-trivial = stripping changes the text";
	fn strategy(&self) -> BoxedStrategy<StripCase> {
		(History::strategy(6), any::<bool>(), vec((op(), any::<bool>()), 0..5)).prop_map(|(before, chained, after)| StripCase { before, chained, after }).boxed()
	}
	fn check(&self, c: &StripCase, obs: &mut Obs) -> Result<(), String> {
		let (mut msg, mut model) = c.before.play()?;
		let old = model.text();
		let had = [&model.ts, &model.prefix, &model.msg, &model.suffix].iter().any(|p| ansi::has_ansi(p));
		obs.nontrivial_if(had);
		obs.label_if([&model.prefix, &model.msg, &model.suffix].iter().any(|p| ansi::strip(p) != ansi::visible(p)), "spliced");
		obs.label_if(model.msg.contains("\x1b]"), "osc");
		Op::Strip.apply(&mut msg, &mut model, c.chained)?;
		agree(&msg, &model, "after strip")?;
		for p in [&model.ts, &model.prefix, &model.msg, &model.suffix] {
			if ansi::has_ansi(p) { return Err(format!("reference failed on {p:?}")); }
		}
		if ! had && msg.as_str() != old { return Err("stripping changed plain text".to_owned()); }
		// Idempotent.
		if msg.strip_ansi() { return Err(format!("second strip reports a change in {:?}", msg.as_str())); }
		agree(&msg, &model, "after second strip")?;
		for (i, (op, b)) in c.after.iter().enumerate() {
			op.apply(&mut msg, &mut model, *b)?;
			agree(&msg, &model, &format!("after strip + op {i} {op:?}"))?;
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C04

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PairCase {
	pub a: History,
	pub b: Option<History>,
	/// When `b` is `None`: derive an equal or nearly equal text from `a`.
	pub split: (u16, u16, u8),
	/// Format width/precision.
	pub width: u8,
	pub prec: Option<u8>,
}

pub struct C04;
impl Prop for C04 {
	type Case = PairCase;
	const NAME: &'static str = "C04";
	const RULE: &'static str = "pairs of messages with independent histories, half of them re-splitting the same (or a one-character different) text into other parts; every comparison, hash and conversion is compared with the same operation on the texts; non-trivial = both non-empty";
	fn strategy(&self) -> BoxedStrategy<PairCase> {
		(History::strategy(4), hc::proptest::option::of(History::strategy(4)), (any::<u16>(), any::<u16>(), 0_u8..20), 0_u8..40, hc::proptest::option::of(0_u8..40))
			.prop_map(|(a, b, split, width, prec)| PairCase { a, b, split, width, prec }).boxed()
	}
	fn check(&self, c: &PairCase, obs: &mut Obs) -> Result<(), String> {
		let (a, ma) = c.a.play()?;
		let ta = ma.text();
		let b = match &c.b {
			Some(h) => h.play()?.0,
			None => {
				// Same text, other parts; or a tiny difference.
				let cut = |n: u16| { let mut k = usize::from(n) % (ta.len() + 1); while ! ta.is_char_boundary(k) { k -= 1; } k };
				let (mut i, mut j) = (cut(c.split.0), cut(c.split.1));
				if i > j { std::mem::swap(&mut i, &mut j); }
				let mut m = Msg::from(&ta[..i]).with_suffix(&ta[i..]);
				if j == ta.len() - usize::from(ta.ends_with('\n')) && ta.ends_with('\n') {
					m = Msg::from(&ta[..ta.len() - 1]).with_newline(true);
				}
				match c.split.2 {
					2 => m.set_suffix(format!("{}\0", &ta[i..])),
					n @ 4.. => { m.set_msg(gens::near(&ta, n - 4, c.split.0)); m.set_suffix(""); m.set_newline(false); },
					3 if ! ta.is_empty() => m.set_msg(&ta[..cut(c.split.1).min(i)]),
					_ => {},
				}
				m
			},
		};
		let tb = b.as_str().to_owned();
		obs.nontrivial_if(! ta.is_empty() && ! tb.is_empty());
		obs.label_if(ta == tb, "equal texts");
		let (sa, sb): (&str, &str) = (&ta, &tb);
		macro_rules! want { ($cond:expr) => ( if ! $cond { return Err(format!("{} fails for {ta:?} / {tb:?}", stringify!($cond))); } ); }

		// Msg vs Msg.
		want!((a == b) == (sa == sb));
		want!((a != b) == (sa != sb));
		want!(a.cmp(&b) == sa.cmp(sb));
		want!(a.partial_cmp(&b) == Some(sa.cmp(sb)));
		want!((a < b) == (sa < sb));
		want!((a >= b) == (sa >= sb));
		want!(b.cmp(&a) == a.cmp(&b).reverse());
		want!(std::cmp::max(a.clone(), b.clone()) == *std::cmp::max(sa, sb));

		// Hashes.
		let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
			use std::hash::Hasher;
			let mut h = std::collections::hash_map::DefaultHasher::new();
			x(&mut h);
			h.finish()
		};
		use std::hash::Hash;
		want!(h(&|s| a.hash(s)) == h(&|s| sa.hash(s)));
		want!(h(&|s| b.hash(s)) == h(&|s| sb.hash(s)));
		let map: HashMap<Msg, u8> = [(a.clone(), 1)].into_iter().collect();
		want!(map.get(sa) == Some(&1));
		want!(map.contains_key(sb) == (sa == sb));
		let tree: BTreeMap<Msg, u8> = [(a.clone(), 1), (b.clone(), 2)].into_iter().collect();
		want!(tree.len() == if sa == sb { 1 } else { 2 });
		want!(tree.get(sb) == Some(&2));
		want!(tree.contains_key(sa));

		// Msg vs strings and bytes, both directions, both values.
		macro_rules! eqs {
			($t:expr => $($v:expr),+ $(,)?) => ($({
				let e = sa == $t;
				let v = $v;
				if (a == v) != e || (v == a) != e || (a != v) == e || (v != a) == e {
					return Err(format!("comparison with {} wrong for {ta:?} / {:?}", stringify!($v), $t));
				}
			})+);
		}
		for t in [sa, sb] {
			let s = t.to_owned();
			let by = t.as_bytes().to_vec();
			let bs: Box<str> = t.into();
			let bb: Box<[u8]> = t.as_bytes().into();
			let cs: Cow<str> = Cow::Borrowed(t);
			let co: Cow<str> = Cow::Owned(s.clone());
			let cb: Cow<[u8]> = Cow::Borrowed(t.as_bytes());
			let cbo: Cow<[u8]> = Cow::Owned(by.clone());
			eqs!(t => t, s.clone(), &s, bs.clone(), &bs, cs.clone(), &cs, co.clone(), &co, t.as_bytes(), by.clone(), &by, bb.clone(), &bb, cb.clone(), &cb, cbo.clone(), &cbo);
			if (a == *t) != (sa == t) || (*t == a) != (sa == t) || (a == *t.as_bytes()) != (sa == t) || (*t.as_bytes() == a) != (sa == t) {
				return Err("unsized comparison wrong".to_owned());
			}
		}

		// Views and conversions.
		want!(AsRef::<str>::as_ref(&a) == sa);
		want!(AsRef::<[u8]>::as_ref(&a) == sa.as_bytes());
		want!(Borrow::<str>::borrow(&a) == sa);
		want!(a.as_str() == sa);
		want!(a.as_bytes() == sa.as_bytes());
		want!(a.len() == sa.len());
		want!(a.is_empty() == sa.is_empty());
		want!(a.to_string() == sa);
		want!(String::from(a.clone()) == sa);
		want!(a.clone().into_string() == sa);
		want!(a.clone().into_bytes() == sa.as_bytes());
		want!(a.clone() == a);
		want!(Msg::from(sa) == a);
		want!(Msg::from(&ta) == a);
		want!(Msg::from(ta.clone()) == a);
		want!(Msg::from(Cow::Borrowed(sa)) == a);
		// Display honours flags like str does.
		let (w, p) = (usize::from(c.width), usize::from(c.prec.unwrap_or(255)));
		want!(format!("{a}") == sa);
		want!(format!("{a:w$}") == format!("{sa:w$}"));
		want!(format!("{a:>w$.p$}") == format!("{sa:>w$.p$}"));
		want!(format!("{a:*^w$}") == format!("{sa:*^w$}"));
		want!(format!("{a:.p$}") == format!("{sa:.p$}"));
		Ok(())
	}
}

// ---------------------------------------------------------------- C06

#[cfg(feature = "progress")]
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SavedCase {
	pub before: u64,
	pub after: u64,
	/// How to build it, and an earlier `stop` to be overridden.
	pub via: u8,
	pub earlier: u64,
	pub base: History,
	pub then: Vec<(Op, bool)>,
}

#[cfg(feature = "progress")]
pub struct C06;
#[cfg(feature = "progress")]
impl Prop for C06 {
	type Case = SavedCase;
	const NAME: &'static str = "C06";
	const RULE: &'static str = "random and boundary-biased before/after pairs (equal, adjacent, zero, huge), built in every way and applied to random messages, compared with 128-bit arithmetic; non-trivial = both sizes known";
	fn strategy(&self) -> BoxedStrategy<SavedCase> {
		let pair = prop_oneof![
			4 => (gens::edgy_u64(), gens::edgy_u64()),
			1 => gens::edgy_u64().prop_map(|a| (a, a)),
			2 => (gens::edgy_u64(), 0_u64..1000).prop_map(|(a, d)| (a, a.saturating_sub(d))),
			2 => (gens::edgy_u64(), 0_u64..1000).prop_map(|(a, d)| (a, a.saturating_add(d))),
			2 => (1_u64..20_000, 1_u64..20_000),
		];
		(pair, 0_u8..4, gens::edgy_u64(), History::strategy(4), vec((op(), any::<bool>()), 0..3))
			.prop_map(|((before, after), via, earlier, base, then)| SavedCase { before, after, via, earlier, base, then }).boxed()
	}
	fn check(&self, c: &SavedCase, obs: &mut Obs) -> Result<(), String> {
		use fyi_msg::BeforeAfter;
		use std::num::NonZeroU64;
		let (b, a) = (c.before, c.after);
		let mut ba = match c.via {
			0 => BeforeAfter::from((b, a)),
			1 => { let mut x = BeforeAfter::start(b); x.stop(a); x },
			2 => { let mut x = BeforeAfter::start(b); x.stop(c.earlier); x.stop(a); x },
			_ => { let mut x = BeforeAfter::from((b, c.earlier)); x.stop(a); x },
		};
		obs.nontrivial_if(b != 0 && a != 0);
		obs.label_if(a != 0 && b > a, "less");
		obs.label_if(b != 0 && a > b, "more");
		let known = b != 0 && a != 0;
		macro_rules! same { ($e:expr, $w:expr) => ({ let (g, w) = ($e, $w); if g != w { return Err(format!("{} for ({b}, {a}): {g:?}, expected {w:?}", stringify!($e))); } }); }
		same!(ba.before(), NonZeroU64::new(b));
		same!(ba.after(), NonZeroU64::new(a));
		let less = if known && b > a { NonZeroU64::new(b - a) } else { None };
		let more = if known && a > b { NonZeroU64::new(a - b) } else { None };
		same!(ba.less(), less);
		same!(ba.more(), more);
		for (got, diff, name) in [(ba.less_percent(), less, "less_percent"), (ba.more_percent(), more, "more_percent")] {
			match (got, diff) {
				(None, None) => {},
				(Some(g), Some(d)) => {
					let want = d.get() as f64 / b as f64;
					if (g - want).abs() > want.abs() * 1e-12 { return Err(format!("{name} for ({b}, {a}): {g}, expected {want}")); }
				},
				(g, d) => return Err(format!("{name} for ({b}, {a}): {g:?} with difference {d:?}")),
			}
		}
		// Only start.
		if c.via == 1 {
			let x = BeforeAfter::start(b);
			same!(x.after(), None);
			same!(x.less(), None);
			same!(x.more(), None);
			same!(x.less_percent(), None);
		}
		// The suffix.
		let (msg, mut model) = c.base.play()?;
		let mut msg = msg.with_bytes_saved(ba);
		let cands = saved_suffix(b, a);
		if ! cands.iter().any(|s| { model.suffix.clone_from(s); model.text() == msg.as_str() }) {
			return Err(format!("with_bytes_saved({b}, {a}) gave {:?}, expected suffix {cands:?}", msg.as_str()));
		}
		for (o, bld) in &c.then {
			o.apply(&mut msg, &mut model, *bld)?;
			agree(&msg, &model, "after bytes saved")?;
		}
		// Re-stopping with zero forgets.
		ba.stop(0);
		same!(ba.after(), None);
		same!(ba.less(), None);
		Ok(())
	}
}
