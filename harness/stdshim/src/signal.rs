//! Signals, delivered by the virtual world to one of its own threads.

use ::std::sync::{Arc, Mutex, PoisonError};
use ::std::panic::{AssertUnwindSafe, catch_unwind};
use crate::virt::{self, Event};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SigId(u64);

type Action = Arc<dyn Fn() + Send + Sync>;

struct Registry { next: u64, list: Vec<(u64, i32, Action)> }

/// (Handlers belong to the process, as they do in reality.)
static ALL: Mutex<Registry> = Mutex::new(Registry { next: 0, list: Vec::new() });

pub fn register(sig: i32, f: Box<dyn Fn() + Send + Sync>) -> SigId {
	let mut r = ALL.lock().unwrap_or_else(PoisonError::into_inner);
	r.next += 1;
	let id = r.next;
	r.list.push((id, sig, Arc::from(f)));
	drop(r);
	virt::log(Event::Handler { sig });
	SigId(id)
}

pub fn unregister(id: SigId) -> bool {
	virt::point();
	let mut r = ALL.lock().unwrap_or_else(PoisonError::into_inner);
	let n = r.list.len();
	r.list.retain(|(k, _, _)| *k != id.0);
	r.list.len() != n
}

/// Is anybody listening?
pub fn handled(sig: i32) -> bool {
	ALL.lock().unwrap_or_else(PoisonError::into_inner).list.iter().any(|(_, s, _)| *s == sig)
}

/// Run the actions of a signal, here and now. The signal is blocked for this
/// thread meanwhile, and a panic takes the process down.
pub fn deliver(sig: i32) {
	let actions: Vec<Action> = ALL.lock().unwrap_or_else(PoisonError::into_inner).list.iter().filter(|(_, s, _)| *s == sig).map(|(_, _, a)| Arc::clone(a)).collect();
	if actions.is_empty() { return; }
	virt::set_masked(true);
	let tid = virt::me().map_or(0, |m| m.1);
	virt::log(Event::Signal { sig, tid, clock: virt::now(), done: false });
	for a in actions {
		if catch_unwind(AssertUnwindSafe(|| a())).is_err() { virt::exit_world(134); }
	}
	virt::log(Event::Signal { sig, tid, clock: virt::now(), done: true });
	virt::set_masked(false);
}
