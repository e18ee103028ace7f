//! The length of a slot.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SlotDuration(u64);
impl SlotDuration {
	pub const fn from_millis(millis: u64) -> Self {
		SlotDuration(millis)
	}
	pub const fn as_millis(&self) -> u64 {
		self.0
	}
	pub const fn as_duration(&self) -> core::time::Duration {
		core::time::Duration::from_millis(self.0)
	}
}
