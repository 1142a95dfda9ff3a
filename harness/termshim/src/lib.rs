//! Stand-in for the `terminal_size` crate: reports the size of the current
//! virtual world's streams.

use stdshim::virt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Width(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Height(pub u16);

/// Streams with a size.
pub trait Sized_ { fn size(&self) -> Option<(u16, u16)>; }
impl Sized_ for stdshim::io::Stderr { fn size(&self) -> Option<(u16, u16)> { virt::term_size() } }
impl Sized_ for &stdshim::io::Stderr { fn size(&self) -> Option<(u16, u16)> { virt::term_size() } }
impl Sized_ for &stdshim::io::StderrLock<'_> { fn size(&self) -> Option<(u16, u16)> { virt::term_size() } }
impl Sized_ for stdshim::io::StderrLock<'_> { fn size(&self) -> Option<(u16, u16)> { virt::term_size() } }
impl Sized_ for &stdshim::io::Stdout { fn size(&self) -> Option<(u16, u16)> { None } }
impl Sized_ for stdshim::io::Stdin { fn size(&self) -> Option<(u16, u16)> { None } }
/// Standard output is never the terminal here.
impl Sized_ for stdshim::io::Stdout { fn size(&self) -> Option<(u16, u16)> { None } }

pub fn terminal_size_of<T: Sized_>(t: T) -> Option<(Width, Height)> { t.size().map(|(w, h)| (Width(w), Height(h))) }

/// The real one tries stdout, stderr, stdin in turn.
pub fn terminal_size() -> Option<(Width, Height)> { virt::term_size().map(|(w, h)| (Width(w), Height(h))) }
