//! Reference number formatting.

/// Thousands separators.
pub fn commas(n: u128) -> String {
	let s = n.to_string();
	let mut out = String::new();
	for (i, c) in s.chars().enumerate() {
		if i != 0 && (s.len() - i) % 3 == 0 { out.push(','); }
		out.push(c);
	}
	out
}

/// Clock `hh:mm:ss`, saturating at 23:59:59.
pub fn clock(secs: u64) -> String {
	if secs >= 86_400 { return "23:59:59".to_owned(); }
	format!("{:02}:{:02}:{:02}", secs / 3600, secs / 60 % 60, secs % 60)
}

/// Elapsed time in words: `3 hours, 2 minutes, and 1.05 seconds`.
pub fn elapsed(d: std::time::Duration) -> String {
	let s = d.as_secs().min(u64::from(u32::MAX));
	let ms = d.subsec_millis() / 10;
	let (days, h, m, s) = (s / 86_400, s / 3600 % 24, s / 60 % 60, s % 60);
	let one = |n: u64, w: &str| format!("{} {w}{}", commas(u128::from(n)), if n == 1 { "" } else { "s" });
	let mut parts = Vec::new();
	if days != 0 { parts.push(one(days, "day")); }
	if h != 0 { parts.push(one(h, "hour")); }
	if m != 0 { parts.push(one(m, "minute")); }
	if ms != 0 { parts.push(format!("{s}.{ms:02} seconds")); }
	else if s != 0 { parts.push(one(s, "second")); }
	match parts.len() {
		0 => "0 seconds".to_owned(),
		1 => parts.remove(0),
		2 => parts.join(" and "),
		n => format!("{}, and {}", parts[..n - 1].join(", "), parts[n - 1]),
	}
}
