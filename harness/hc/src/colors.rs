//! Independent color table: the named ANSI-256 colors (from the documentation's
//! reference table) and the standard foreground codes.

/// Named colors: (number, name).
pub const NAMED: &[(u8, &str)] = &[
	(0, "Black"),
	(1, "Red"),
	(2, "Green"),
	(3, "Yellow"),
	(4, "Blue"),
	(5, "Magenta"),
	(6, "Cyan"),
	(7, "LightGrey"),
	(8, "DarkGrey"),
	(9, "LightRed"),
	(10, "LightGreen"),
	(11, "LightYellow"),
	(12, "LightBlue"),
	(13, "LightMagenta"),
	(14, "LightCyan"),
	(15, "White"),
	(17, "NavyBlue"),
	(18, "DarkBlue"),
	(22, "DarkGreen"),
	(36, "DarkCyan"),
	(37, "LightSeaGreen"),
	(44, "DarkTurquoise"),
	(49, "MediumSpringGreen"),
	(57, "BlueViolet"),
	(63, "RoyalBlue"),
	(67, "SteelBlue"),
	(69, "CornflowerBlue"),
	(80, "MediumTurquoise"),
	(103, "LightSlateGrey"),
	(104, "MediumPurple"),
	(105, "LightSlateBlue"),
	(108, "DarkSeaGreen"),
	(126, "MediumVioletRed"),
	(136, "DarkGoldenrod"),
	(138, "RosyBrown"),
	(143, "DarkKhaki"),
	(147, "LightSteelBlue"),
	(154, "GreenYellow"),
	(170, "Orchid"),
	(177, "Violet"),
	(180, "Tan"),
	(194, "Honeydew"),
	(201, "OrangeRed"),
	(208, "DarkOrange"),
	(209, "Salmon"),
	(210, "LightCoral"),
	(215, "SandyBrown"),
	(230, "Cornsilk"),
];

/// Foreground SGR code for a color number.
pub fn code(n: u8) -> String {
	if n < 8 { format!("3{n}") }
	else if n < 16 { format!("9{}", n - 8) }
	else { format!("38;5;{n}") }
}

/// `PascalCase` to `snake_case`.
pub fn snake(name: &str) -> String {
	let mut out = String::new();
	for (i, c) in name.chars().enumerate() {
		if c.is_ascii_uppercase() && i != 0 { out.push('_'); }
		out.push(c.to_ascii_lowercase());
	}
	out
}

/// Message kinds: (name, command, color).
pub const KINDS: &[(&str, &str, u8)] = &[
	("Aborted", "aborted", 9),
	("Confirm", "confirm", 208),
	("Crunched", "crunched", 10),
	("Debug", "debug", 14),
	("Done", "done", 10),
	("Error", "error", 9),
	("Found", "found", 10),
	("Info", "info", 13),
	("Notice", "notice", 13),
	("Review", "review", 14),
	("Skipped", "skipped", 11),
	("Success", "success", 10),
	("Task", "task", 199),
	("Warning", "warning", 11),
];

/// Prefix for a kind.
pub fn kind_prefix(name: &str, color: u8) -> String { prefix(name, Some(color)) }

/// Prefix for custom text.
pub fn prefix(txt: &str, color: Option<u8>) -> String {
	if txt.is_empty() { return String::new(); }
	match color {
		None => format!("{txt}: "),
		Some(c) => format!("\x1b[1;{}m{txt}:\x1b[0m ", code(c)),
	}
}
