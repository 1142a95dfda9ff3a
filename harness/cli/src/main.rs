//! Command line checks: the real `fyi` program, run for every case.

mod lines;
mod model;
mod run;

fn main() {
	run::limits();
	hc::main_for!(lines::C14, lines::C15, lines::C16);
}
