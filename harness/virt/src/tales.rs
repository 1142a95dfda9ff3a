//! Generators of stories.

use crate::story::{Op, Spec, Story};
use hc::gens;
use hc::proptest::collection::vec;
use hc::proptest::option;
use hc::proptest::prelude::*;
use hc::proptest::sample::select;

/// Style and hyperlink sequences that do not move the cursor.
const SGR: &[&str] = &["\x1b[0m", "\x1b[1m", "\x1b[m", "\x1b[38;5;199m", "\x1b[1;91m", "\x1b[2m", "\x1b]8;;http://x/\x1b\\", "\x1b]8;;\x07"];
const WHITE: &[&str] = &["\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\u{2003}"];
const WORDS: &[&str] = &["a", "Hello", "x y", " ", "  ", "World!", "é", "字", "漢字", "👍", "\u{301}", "\u{200b}", "\u{ad}", "ß", "longer words here", "[", "#", "1/2", "ﬀ"];
/// Much alike.
const ALIKE: &[&str] = &["Step one", "step one", "STEP ONE", "Step two", "Step on3", "Step one ", "Steps one", "Step onë", "Step 1", "Step 2", "Step 10", "\x1b[1mStep one\x1b[0m", "\x1b[2mStep one\x1b[0m"];
/// Labels that are long, and alike.
const LONG: &[&str] = &[
	"/some/where/deep/in/the/tree/of/files/image-0001.jpg", "/some/where/deep/in/the/tree/of/files/image-0002.jpg", "/some/where/deep/in/the/tree/of/files/image-0001.jpeg",
	"/some/where/deep/in/the/tree/of/files/Image-0001.jpg", "/some/where/deep/in/the/trees/of/files/image-0001.jpg",
	"a task whose label is rather longer than most of them happen to be, so that it fills a line of a typical terminal and then some more",
	"a task whose label is rather longer than most of them happen to be, so that it fills a line of a typical terminal and then some less",
	"漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字",
	"naïve façade déjà-vu coöperation Ångström jalapeño smörgåsbord über crème brûlée",
];

fn glyphs() -> BoxedStrategy<String> { select(WORDS).prop_map(str::to_owned).boxed() }

/// Printable text with styles; white space on request.
pub fn styled(white: u32) -> BoxedStrategy<String> {
	let frag = prop_oneof![
		8 => glyphs(),
		3 => select(SGR).prop_map(str::to_owned),
		white => select(WHITE).prop_map(str::to_owned),
	];
	prop_oneof![
		20 => Just(String::new()),
		40 => select(ALIKE).prop_map(str::to_owned),
		200 => vec(frag.clone(), 1..7).prop_map(|v| v.concat()),
		40 => (glyphs(), 1_usize..150).prop_map(|(g, n)| g.repeat(n)),
		20 => (vec(frag, 1..4), 1_usize..40).prop_map(|(v, n)| v.concat().repeat(n)),
		// As large as buffers tend to be.
		1 => (glyphs(), prop_oneof![4 => 1_000_usize..1_100, 3 => 4_080_usize..4_110, 3 => 8_180_usize..8_210, 1 => 65_500_usize..65_560]).prop_map(|(g, n)| g.repeat(n / g.len() + 1)),
	].boxed()
}

pub fn spec(white: u32) -> BoxedStrategy<Spec> {
	(
		prop_oneof![8 => Just(0_u8), 2 => 1_u8..4, 1 => 5_u8..12],
		option::weighted(0.6, (gens::word(), any::<u8>())),
		styled(white),
		prop_oneof![4 => Just(String::new()), 1 => styled(white)],
		any::<bool>(),
	).prop_map(|(indent, prefix, msg, suffix, newline)| Spec { indent, prefix, msg, suffix, newline }).boxed()
}

/// Task labels: a small pool (so that they collide) and arbitrary text.
pub fn label() -> BoxedStrategy<String> {
	prop_oneof![
		6 => select(vec!["a", "b", "c", "d", "one two", "z"]).prop_map(str::to_owned),
		1 => select(vec!["a ", "a\n", "\x1b[1ma\x1b[0m", "a\t", " a", "b\x07", "one\ttwo", "", " ", "\x1b[0m", "a \x1b[0m", "\x07", "\x1b[1m \x1b[0m"]).prop_map(str::to_owned),
		2 => select(LONG).prop_map(str::to_owned),
		2 => gens::text_n(4),
		1 => styled(2),
		1 => (0_u32..400).prop_map(|n| format!("task {n}")),
	].boxed()
}

pub fn size() -> BoxedStrategy<Option<(u16, u16)>> {
	let cols = prop_oneof![
		1 => select(vec![0_u16, 1, 2, 3, 9, 10, 11, 12, 20, 38, 39, 40, 41, 42]),
		4 => 38_u16..75,
		4 => 60_u16..130,
		2 => select(vec![254_u16, 255, 256, 257, 258, 300, 1000, 65_535]),
	];
	let rows = prop_oneof![
		1 => select(vec![0_u16, 1, 2, 3]),
		4 => 2_u16..9,
		4 => 10_u16..40,
		1 => select(vec![254_u16, 255, 256, 257, 300]),
	];
	// Cells are cheap but not free.
	prop_oneof![
		1 => Just(None),
		30 => (cols, rows).prop_map(|(c, r)| Some((c.min(2000), r))),
	].boxed()
}

/// An ordinary screen.
pub fn plain_size() -> BoxedStrategy<Option<(u16, u16)>> { (60_u16..140, 8_u16..40).prop_map(Some).boxed() }

/// Room for many tasks.
pub fn tall_size() -> BoxedStrategy<Option<(u16, u16)>> {
	(40_u16..120, prop_oneof![3 => 20_u16..140, 1 => 140_u16..250, 1 => 250_u16..260]).prop_map(Some).boxed()
}

/// A story about more tasks than usual.
pub fn tall() -> BoxedStrategy<Story> { solo(Mix::TALL, (300_u32..5000).boxed(), tall_size(), 8) }

pub fn total() -> BoxedStrategy<u32> {
	prop_oneof![
		1 => Just(0),
		5 => 1_u32..12,
		3 => gens::edgy_u32().prop_map(|n| n.max(1)),
	].boxed()
}

/// A count near something interesting about a total.
fn near(total: u32) -> BoxedStrategy<u32> {
	prop_oneof![
		4 => 0_u32..12,
		3 => (0_u64..1001, -2_i64..3).prop_map(move |(k, d)| u32::try_from((u64::from(total) * k / 1000).saturating_add_signed(d)).unwrap_or(u32::MAX)),
		2 => (0_u32..4).prop_map(move |d| total.saturating_sub(d)),
		1 => gens::edgy_u32(),
	].boxed()
}

/// How much of what.
#[derive(Clone, Copy, Default)]
pub struct Mix {
	pub count: u32, pub set: u32, pub task: u32, pub title: u32, pub push: u32, pub reset: u32, pub finish: u32,
	pub sleep: u32, pub settle: u32, pub jump: u32, pub resize: u32, pub summary: u32, pub clone: u32, pub broken: u32,
	/// White space in titles and messages.
	pub white: u32,
	/// Numbered tasks by the dozen.
	pub many: u32,
}

impl Mix {
	/// Tasks by the dozen.
	pub const TALL: Self = Self { count: 2, set: 1, task: 2, title: 3, push: 2, reset: 1, finish: 1, sleep: 1, settle: 8, jump: 0, resize: 1, summary: 0, clone: 0, broken: 0, many: 6, white: 0 };
	pub const EVEN: Self = Self { count: 6, set: 2, task: 6, title: 4, push: 2, reset: 1, finish: 1, sleep: 2, settle: 3, jump: 1, resize: 0, summary: 1, clone: 1, broken: 0, many: 0, white: 1 };
}

pub fn op(m: Mix, total: u32) -> BoxedStrategy<Op> {
	let words = || prop_oneof![3 => gens::word(), 1 => styled(0)];
	let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
		(m.count, prop_oneof![3 => Just(Op::Inc), 2 => near(total).prop_map(Op::IncN)].boxed()),
		(m.set, near(total).prop_map(Op::SetDone).boxed()),
		(m.task, prop_oneof![3 => label().prop_map(Op::Add), 2 => label().prop_map(Op::Remove)].boxed()),
		(m.title, prop_oneof![
			3 => spec(m.white).prop_map(|s| Op::Title(Some(s))),
			1 => Just(Op::Title(None)),
			2 => styled(m.white).prop_map(Op::TitleMsg),
			1 => words().prop_map(Op::Splines),
		].boxed()),
		(m.push, (prop_oneof![2 => spec(0), 1 => spec(3)], prop_oneof![59 => Just(300_usize), 1 => Just(100_000)]).prop_map(|(mut s, max)| {
			if 2 * max < s.msg.len() { s.msg = hc::ansi::visible(&s.msg).chars().take(max).collect(); }
			// As large as buffers tend to be.
			if 300 < max { s.msg = hc::ansi::visible(&s.msg); }
			if 300 < max && ! s.msg.is_empty() && s.msg.len() < 1000 { s.msg = s.msg.repeat([1_100, 4_100, 8_200, 8_200, 16_400, 65_600][s.msg.len() % 6] / s.msg.len() + 1); }
			Op::Push(s)
		}).boxed()),
		(m.reset, prop_oneof![
			3 => self::total().prop_map(|n| Op::Reset(n.max(1))),
			2 => Just(Op::Reset(total.max(1))),
			2 => self::total().prop_map(Op::TryReset),
		].boxed()),
		(m.finish, Just(Op::Finish).boxed()),
		(m.sleep, prop_oneof![2 => 1_u32..300, 1 => select(vec![99_u32, 100, 101, 200, 1000])].prop_map(Op::Sleep).boxed()),
		(m.settle, prop_oneof![4 => Just(310_u32), 1 => 300_u32..2500].prop_map(Op::Sleep).boxed()),
		(m.jump, prop_oneof![3 => 1_u32..100, 2 => 3_000_u32..4_000, 2 => 80_000_u32..100_000, 1 => any::<u32>()].prop_map(Op::Jump).boxed()),
		(m.resize, size().prop_map(Op::Resize).boxed()),
		(m.summary, prop_oneof![5 => (any::<u8>(), words(), words()).prop_map(|(k, a, b)| Op::Summary(k, a, b)), 1 => Just(Op::Convert)].boxed()),
		(m.clone, Just(Op::CloneDrop).boxed()),
		(m.many, prop_oneof![
			// (Enough for a tall screen, and a few too many.)
			2 => (0_u16..8, prop_oneof![3 => 1_u16..30, 2 => 30_u16..130, 1 => 248_u16..256]).prop_map(|(a, n)| Op::Many(a, n)),
			1 => (0_u16..250, 1_u16..20).prop_map(|(a, n)| Op::Fewer(a, n)),
		].boxed()),
		(m.broken, option::weighted(0.6, any::<u8>()).prop_map(Op::Broken).boxed()),
	];
	hc::proptest::strategy::Union::new_weighted(all.into_iter().filter(|x| x.0 != 0).collect()).boxed()
}

/// Context switches: often none, sometimes a few, at points spread over the run.
pub fn switches(dense: bool) -> BoxedStrategy<Vec<(u16, u8)>> {
	let one = prop_oneof![6 => 0_u16..12, 3 => 0_u16..80, 1 => 0_u16..500];
	let v = vec((one, any::<u8>()), 1..if dense { 40 } else { 12 });
	if dense { v.boxed() }
	else { prop_oneof![2 => Just(Vec::new()), 1 => v].boxed() }
}

/// Recoverable write faults only.
pub fn soft_faults() -> BoxedStrategy<Vec<u8>> {
	vec(prop_oneof![2 => Just(0_u8), 4 => 1_u8..40, 3 => Just(250_u8)], 0..40).boxed()
}

/// Which operations are to repeat an earlier one of their kind, almost.
type Kin = Vec<(u8, u8, u16)>;

fn kin() -> BoxedStrategy<Kin> {
	vec(prop_oneof![5 => Just((0_u8, 0_u8, 0_u16)), 2 => (1_u8.., any::<u8>(), any::<u16>())], 0..24).boxed()
}

fn relate<'a>(ops: impl Iterator<Item = &'a mut Op>, size: Option<(u16, u16)>, kin: &Kin) {
	let (mut labels, mut titles, mut sizes) = (Vec::<String>::new(), Vec::<String>::new(), vec![size]);
	let pick = |v: &[String], which: u8| if v.is_empty() { None } else { Some(v[v.len() - 1 - usize::from(which) % v.len().min(4)].clone()) };
	let mut kin = kin.iter();
	for op in ops {
		let (which, how, n) = *kin.next().unwrap_or(&(0, 0, 0));
		match op {
			Op::Add(s) | Op::Remove(s) => {
				if which != 0 && let Some(old) = pick(&labels, which) { *s = akin(&old, how, n, "\t\x07\x1b"); }
				labels.push(s.clone());
			},
			Op::Title(Some(Spec { msg: s, .. })) | Op::TitleMsg(s) => {
				if which != 0 && let Some(old) = pick(&titles, which) { *s = akin(&old, how, n, "\x1b"); }
				titles.push(s.clone());
			},
			Op::Resize(to) => {
				if which != 0 && let Some((c, r)) = sizes[sizes.len() - 1 - usize::from(which) % sizes.len().min(3)] { *to = Some(alike((c, r), how, n)); }
				sizes.push(*to);
			},
			_ => {},
		}
	}
}

/// Text that is close to another. (Sequences must stay what they are.)
fn akin(s: &str, how: u8, n: u16, fine: &str) -> String {
	let out = match how % 32 {
		h @ 0..14 if ! s.contains('\x1b') => gens::near(s, h, n),
		14..17 => format!("{}{s}", [" ", "\t", "  "][usize::from(n % 3)]),
		17..20 => format!("{s}{}", [" ", "\t", "\u{3000}"][usize::from(n % 3)]),
		20..22 => s.trim().to_owned(),
		22 | 23 => hc::ansi::visible(s),
		24..26 => format!("\x1b[1m{s}\x1b[0m"),
		26 => format!("{s}\x07"),
		27 => s.replace(' ', "\t"),
		_ => s.to_owned(),
	};
	// (Nor may others come up.)
	if out.chars().any(|c| c.is_control() && ! s.contains(c) && ! fine.contains(c)) || 1500 < out.len() { s.to_owned() } else { out }
}

/// A size that is close to another, or has something in common with it.
fn alike((c, r): (u16, u16), how: u8, n: u16) -> (u16, u16) {
	let (w, h) = (u32::from(c.clamp(2, 256)) - 1, u32::from(r.clamp(2, 256)) - 1);
	let to = match how % 12 {
		0 => (c.wrapping_add(1), r),
		1 => (c.saturating_sub(1), r),
		2 => (c, r.wrapping_add(1)),
		3 => (c, r.saturating_sub(1)),
		4 => (r, c),
		5 => (h as u16 + 1, w as u16 + 1),
		// The same area (as drawn on, and otherwise).
		6 | 7 => {
			let (w, h, more) = if how & 1 == 0 { (w, h, 1) } else { (u32::from(c), u32::from(r), 0) };
			let fits: Vec<u32> = (10..256).filter(|k| (w * h) % k == 0 && (2..256).contains(&(w * h / k)) && *k != w).collect();
			if fits.is_empty() { (c, r) } else { let k = fits[usize::from(n) % fits.len()]; ((k + more) as u16, (w * h / k + more) as u16) }
		},
		// The same sum.
		8 => { let d = 1 + n % 20; (c.wrapping_add(d), r.saturating_sub(d)) },
		9 => { let d = 1 + n % 20; (c.saturating_sub(d), r.wrapping_add(d)) },
		// The same in eight bits.
		10 => if n & 1 == 0 { (c.wrapping_add(256), r) } else { (c, r.wrapping_add(256)) },
		_ => (c, r),
	};
	(to.0.min(2000), to.1.min(300))
}

/// One thread of operations while the ticker ticks.
pub fn solo(m: Mix, total: BoxedStrategy<u32>, size: BoxedStrategy<Option<(u16, u16)>>, len: usize) -> BoxedStrategy<Story> {
	total.prop_flat_map(move |t| (
		Just(t),
		option::weighted(0.3, spec(m.white)),
		size.clone(),
		vec(op(m, t), 1..=len),
		switches(false),
		any::<bool>(),
		kin(),
		if m.resize == 0 { Just(None).boxed() } else { option::weighted(0.15, (any::<u8>(), 0_usize..3, 0_usize..3, self::size())).boxed() },
	)).prop_map(|(total, title, size, mut ops, switches, finish, kin, blink)| {
		relate(ops.iter_mut(), size, &kin);
		// Another size, or none, for a while.
		if let Some((at, skip, wait, other)) = blink {
			let at = usize::from(at) % (ops.len() + 1);
			let now = ops[..at].iter().rev().find_map(|o| if let Op::Resize(s) = o { Some(*s) } else { None }).unwrap_or(size);
			let end = (at + skip).min(ops.len());
			let other = if at & 1 == 0 { None } else { other };
			ops.splice(end..end, [Op::Resize(now)].into_iter().chain((wait == 0).then_some(Op::Sleep(310))));
			ops.splice(at..at, [Op::Resize(other)].into_iter().chain((wait != 2).then_some(Op::Sleep([310, 120, 0][wait]))));
		}
		Story { total, title, size, threads: vec![ops], switches, faults: Vec::new(), finish, settle: true }
	}).boxed()
}

/// The terminal stops telling its size for a while, or for good.
pub fn flicker(stories: BoxedStrategy<Story>) -> BoxedStrategy<Story> {
	(stories, vec((any::<[u8; 3]>(), 0_usize..3, option::weighted(0.4, 0_usize..4)), 1..3)).prop_map(|(mut story, all)| {
		for ([a, b, c], wait, back) in all {
			let t = usize::from(a) % story.threads.len();
			let ops = &mut story.threads[t];
			let at = usize::from(b) % (ops.len() + 1);
			if let Some(skip) = back {
				let end = (at + skip).min(ops.len());
				ops.splice(end..end, [Op::Resize(story.size)].into_iter().chain((c & 1 == 0).then_some(Op::Sleep(310))));
			}
			ops.splice(at..at, (c & 2 == 0).then_some(Op::Sleep(310)).into_iter().chain([Op::Resize(None)]).chain((wait != 2).then_some(Op::Sleep([310, 120, 0][wait]))));
		}
		story
	}).boxed()
}

/// Several threads.
pub fn crowd(m: Mix, total: BoxedStrategy<u32>, size: BoxedStrategy<Option<(u16, u16)>>, threads: usize, len: usize) -> BoxedStrategy<Story> {
	total.prop_flat_map(move |t| (
		Just(t),
		size.clone(),
		vec(vec(op(m, t), 1..=len), 2..=threads),
		switches(true),
		any::<bool>(),
		kin(),
	)).prop_map(|(total, size, mut threads, switches, finish, kin)| {
		relate(threads.iter_mut().flatten(), size, &kin);
		Story { total, title: None, size, threads, switches, faults: Vec::new(), finish, settle: true }
	}).boxed()
}
