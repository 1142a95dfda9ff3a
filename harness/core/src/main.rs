//! Library checks that need no clock, terminal or thread control.

mod color;
mod model;
mod msgs;
#[cfg(feature = "timestamps")]
mod stamps;
#[cfg(feature = "fitted")]
mod widths;

fn main() {
	#[cfg(feature = "progress")]
	if std::env::args().nth(1).as_deref() == Some("C06") { hc::main_for!(msgs::C06); }
	#[cfg(feature = "fitted")]
	if matches!(std::env::args().nth(1).as_deref(), Some("C09" | "C10" | "C11")) { hc::main_for!(widths::C09, widths::C10, widths::C11); }
	#[cfg(feature = "timestamps")]
	if std::env::args().nth(1).as_deref() == Some("C05") { hc::main_for!(stamps::C05); }
	hc::main_for!(msgs::C01, msgs::C02, msgs::C03, msgs::C04, color::C12);
}
