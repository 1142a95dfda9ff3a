//! Progress, printing and prompting checks in a virtual world.

mod crowd;
mod frames;
mod judge;
mod misc;
mod model;
mod seq;
#[cfg(feature = "sig")]
mod sig;
mod story;
mod tales;

fn main() {
	// Threads hand over to each other all the time: one core is quicker.
	unsafe {
		let mut set: libc::cpu_set_t = std::mem::zeroed();
		if libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut set) == 0 {
			let have: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
			let shard = std::env::args().skip_while(|a| a != "--shard").nth(1).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
			let mut one: libc::cpu_set_t = std::mem::zeroed();
			libc::CPU_SET(have[shard % have.len().max(1)], &mut one);
			libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &one);
		}
	}
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| if ! stdshim::virt::on_panic(info.to_string()) { old(info); }));
	#[cfg(feature = "sig")]
	hc::main_for!(sig::C27, sig::C30sig);
	#[cfg(not(feature = "sig"))]
	hc::main_for!(misc::C07, misc::C08, misc::C17, crowd::C20, crowd::C18crowd, crowd::C19crowd, crowd::C26crowd, seq::C18, seq::C19, seq::C21, seq::C22, seq::C23, seq::C24, seq::C25, seq::C26, seq::C28, seq::C29, seq::C30);
}
