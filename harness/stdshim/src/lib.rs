//! A virtual standard library.
//!
//! Everything is the real `std` except the parts through which threads, time
//! and the standard streams are reached. Those go through [`virt`], a
//! deterministic scheduler that runs one thread at a time and decides every
//! context switch, with a virtual clock and in-memory streams.
//!
//! Outside a virtual world the replacements are single-threaded pass-throughs.

pub use ::std::*;

pub mod virt;

pub mod fs;
pub mod io;
pub mod process;
pub mod signal;
pub mod sync;
pub mod thread;
pub mod time;

/// The printing macros, to the virtual streams. (Like the real ones, they
/// panic if that fails.)
#[macro_export]
macro_rules! print { ($($a:tt)*) => ($crate::io::must_print($crate::format_args!($($a)*), false)); }
#[macro_export]
macro_rules! eprint { ($($a:tt)*) => ($crate::io::must_print($crate::format_args!($($a)*), true)); }
#[macro_export]
macro_rules! println {
	() => ($crate::print!("\n"));
	($($a:tt)*) => ($crate::io::must_print($crate::format_args!("{}\n", $crate::format_args!($($a)*)), false));
}
#[macro_export]
macro_rules! eprintln {
	() => ($crate::eprint!("\n"));
	($($a:tt)*) => ($crate::io::must_print($crate::format_args!("{}\n", $crate::format_args!($($a)*)), true));
}

/// (This is where the compiler finds the macros.)
pub mod prelude {
	pub mod rust_2024 {
		pub use ::std::prelude::rust_2024::*;
		pub use crate::{eprint, eprintln, print, println};
	}
	pub mod rust_2021 {
		pub use ::std::prelude::rust_2021::*;
		pub use crate::{eprint, eprintln, print, println};
	}
	pub mod v1 {
		pub use ::std::prelude::v1::*;
		pub use crate::{eprint, eprintln, print, println};
	}
}
