//! Progress bars for real: a child process with a pseudo-terminal, the real
//! standard library, the real clock and real signals.

#[path = "../../virt/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../virt/src/frames.rs"]
#[allow(dead_code)]
mod frames;
mod child;
mod parent;
mod checks;
#[path = "../../virt/src/tales.rs"]
#[allow(dead_code)]
mod tales;
/// (Where the generators look for these.)
mod story { pub use crate::model::*; }

fn main() {
	if std::env::var_os("REAL_CHILD").is_some() {
		let mut s = String::new();
		std::io::stdin().read_line(&mut s).expect("the script");
		child::main(&s);
	}
	hc::main_for!(checks::R21, checks::R23, checks::R24, checks::R27, checks::R28);
}
