//! Files: the real ones, except that other threads may get to run right
//! before a write.

pub use ::std::fs::*;
use ::std::ops::{Deref, DerefMut};
use ::std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, OwnedFd, RawFd};
use ::std::io::{Read, Result, Seek, SeekFrom, Write};
use ::std::path::Path;

#[derive(Debug)]
pub struct File(::std::fs::File);

impl File {
	pub fn open<P: AsRef<Path>>(p: P) -> Result<Self> { ::std::fs::File::open(p).map(Self) }
	pub fn create<P: AsRef<Path>>(p: P) -> Result<Self> { ::std::fs::File::create(p).map(Self) }
	pub fn try_clone(&self) -> Result<Self> { self.0.try_clone().map(Self) }
}
impl Deref for File { type Target = ::std::fs::File; fn deref(&self) -> &::std::fs::File { &self.0 } }
impl DerefMut for File { fn deref_mut(&mut self) -> &mut ::std::fs::File { &mut self.0 } }
impl FromRawFd for File { unsafe fn from_raw_fd(fd: RawFd) -> Self { Self(unsafe { ::std::fs::File::from_raw_fd(fd) }) } }
impl IntoRawFd for File { fn into_raw_fd(self) -> RawFd { self.0.into_raw_fd() } }
impl AsRawFd for File { fn as_raw_fd(&self) -> RawFd { self.0.as_raw_fd() } }
impl AsFd for File { fn as_fd(&self) -> BorrowedFd<'_> { self.0.as_fd() } }
impl From<OwnedFd> for File { fn from(fd: OwnedFd) -> Self { Self(fd.into()) } }
impl From<File> for OwnedFd { fn from(f: File) -> Self { f.0.into() } }
impl From<::std::fs::File> for File { fn from(f: ::std::fs::File) -> Self { Self(f) } }
impl Write for File {
	fn write(&mut self, b: &[u8]) -> Result<usize> { crate::virt::point(); self.0.write(b) }
	fn flush(&mut self) -> Result<()> { self.0.flush() }
}
impl Write for &File {
	fn write(&mut self, b: &[u8]) -> Result<usize> { crate::virt::point(); (&self.0).write(b) }
	fn flush(&mut self) -> Result<()> { (&self.0).flush() }
}
impl Read for File { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0.read(b) } }
impl Read for &File { fn read(&mut self, b: &mut [u8]) -> Result<usize> { (&self.0).read(b) } }
impl Seek for File { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
