//! Ending the process ends the world.

pub use ::std::process::*;
use crate::virt;

pub fn exit(code: i32) -> ! { if virt::is_virtual() { virt::exit_world(code) } else { ::std::process::exit(code) } }
pub fn abort() -> ! { if virt::is_virtual() { virt::exit_world(134) } else { ::std::process::abort() } }
