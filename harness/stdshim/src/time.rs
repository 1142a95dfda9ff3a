//! Virtual time.

pub use ::std::time::*;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use crate::virt;

/// A virtual instant (nanoseconds).
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

impl Instant {
	pub fn now() -> Self { Self(virt::now()) }
	pub fn elapsed(&self) -> Duration { Self::now().duration_since(*self) }
	pub fn duration_since(&self, earlier: Self) -> Duration { Duration::from_nanos(self.0.saturating_sub(earlier.0)) }
	pub fn saturating_duration_since(&self, earlier: Self) -> Duration { self.duration_since(earlier) }
	pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> { self.0.checked_sub(earlier.0).map(Duration::from_nanos) }
	pub fn checked_add(&self, d: Duration) -> Option<Self> { u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_add(d)).map(Self) }
	pub fn checked_sub(&self, d: Duration) -> Option<Self> { u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_sub(d)).map(Self) }
}
impl Add<Duration> for Instant { type Output = Self; fn add(self, d: Duration) -> Self { self.checked_add(d).expect("overflow when adding duration to instant") } }
impl Sub<Duration> for Instant { type Output = Self; fn sub(self, d: Duration) -> Self { self.checked_sub(d).expect("overflow when subtracting duration from instant") } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Self) -> Duration { self.duration_since(o) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d; } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d; } }

impl From<Instant> for dactyl::NiceElapsed { fn from(i: Instant) -> Self { Self::from(i.elapsed()) } }
impl From<Instant> for dactyl::NiceClock { fn from(i: Instant) -> Self { Self::from(i.elapsed()) } }
