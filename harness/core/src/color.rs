//! C12: the color type.

use fyi_msg::AnsiColor;
use hc::proptest::prelude::*;
use hc::{Obs, Prop, colors};
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ColorCase {
	pub a: u8,
	pub b: u8,
	pub width: u8,
	pub prec: u8,
}

/// Named variants, straight from the documentation's table.
macro_rules! named { ($($n:ident),+ $(,)?) => ( const VARIANTS: &[(&str, AnsiColor)] = &[$((stringify!($n), AnsiColor::$n)),+]; ); }
named!(
	Black, Red, Green, Yellow, Blue, Magenta, Cyan, LightGrey, DarkGrey, LightRed, LightGreen, LightYellow, LightBlue, LightMagenta, LightCyan, White,
	NavyBlue, DarkBlue, DarkGreen, DarkCyan, LightSeaGreen, DarkTurquoise, MediumSpringGreen, BlueViolet, RoyalBlue, SteelBlue, CornflowerBlue,
	MediumTurquoise, LightSlateGrey, MediumPurple, LightSlateBlue, DarkSeaGreen, MediumVioletRed, DarkGoldenrod, RosyBrown, DarkKhaki, LightSteelBlue,
	GreenYellow, Orchid, Violet, Tan, Honeydew, OrangeRed, DarkOrange, Salmon, LightCoral, SandyBrown, Cornsilk,
	Misc016, Misc019, Misc052, Misc099, Misc100, Misc199, Misc231, Misc232, Misc254, Misc255,
);

fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	v.hash(&mut h);
	h.finish()
}

pub struct C12;
impl Prop for C12 {
	type Case = ColorCase;
	const NAME: &'static str = "C12";
	const RULE: &'static str = "all 256 numbers (each against every other number), all named colors, and random pairs with random Display flags, against an independent code table; non-trivial = every case";
	fn strategy(&self) -> BoxedStrategy<ColorCase> {
		(any::<u8>(), any::<u8>(), 0_u8..30, 0_u8..30).prop_map(|(a, b, width, prec)| ColorCase { a, b, width, prec }).boxed()
	}
	fn fixed(&self) -> Vec<ColorCase> {
		(0..=255_u8).flat_map(|a| (0..=255_u8).map(move |b| ColorCase { a, b, width: a % 30, prec: b % 30 })).collect()
	}
	fn check(&self, c: &ColorCase, obs: &mut Obs) -> Result<(), String> {
		obs.nontrivial();
		let (a, b) = (AnsiColor::from_u8(c.a), AnsiColor::from(c.b));
		macro_rules! want { ($cond:expr) => ( if ! $cond { return Err(format!("{} fails for {} / {} ({a:?} / {b:?})", stringify!($cond), c.a, c.b)); } ); }
		let code = format!("\x1b[{}m", colors::code(c.a));
		want!(AnsiColor::from(c.a) == a);
		want!(a as u8 == c.a);
		want!(u8::from(a as u8) == c.a);
		want!(a == c.a);
		want!(c.a == a);
		want!((a == c.b) == (c.a == c.b));
		want!((c.b == a) == (c.a == c.b));
		want!(a.as_str() == code);
		want!(a.to_string() == code);
		let (w, p) = (usize::from(c.width), usize::from(c.prec));
		want!(format!("{a:w$}") == format!("{code:w$}"));
		want!(format!("{a:>w$.p$}") == format!("{code:>w$.p$}"));
		want!(format!("{a:-^w$}") == format!("{code:-^w$}"));
		want!((a == b) == (c.a == c.b));
		want!(a.cmp(&b) == c.a.cmp(&c.b));
		want!(a.partial_cmp(&b) == Some(c.a.cmp(&c.b)));
		want!((hash(&a) == hash(&b)) == (c.a == c.b));
		want!((a.as_str() == b.as_str()) == (c.a == c.b));
		let copy = a;
		want!(copy == a);
		want!(AnsiColor::RESET == "\x1b[0m");
		// Bold form, as seen in prefixes.
		let bold = fyi_msg::Msg::new(("X", a), "y");
		want!(bold == format!("\x1b[1;{}mX:\x1b[0m y", colors::code(c.a)).as_str());
		want!(fyi_msg::Msg::new(("X", c.a), "y") == bold);
		// Names.
		for (name, v) in VARIANTS {
			if let Some((n, _)) = colors::NAMED.iter().find(|(_, x)| x == name) {
				if *v as u8 != *n { return Err(format!("{name} is color {}, expected {n}", *v as u8)); }
			}
			else {
				let n: u8 = name[4..].parse().unwrap();
				if *v as u8 != n { return Err(format!("{name} is color {}", *v as u8)); }
			}
		}
		if let Some((_, name)) = colors::NAMED.iter().find(|(n, _)| *n == c.a) {
			if format!("{a:?}") != *name { return Err(format!("color {} is named {a:?}, expected {name}", c.a)); }
		}
		else if format!("{a:?}") != format!("Misc{:03}", c.a) { return Err(format!("color {} is named {a:?}", c.a)); }
		Ok(())
	}
}
