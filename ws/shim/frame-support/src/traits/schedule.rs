use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::runtime::DispatchError;

pub type Period<N> = (N, u32);
pub type Priority = u8;
pub const HIGHEST_PRIORITY: Priority = 0;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub enum DispatchTime<N> {
	At(N),
	After(N),
}
impl<N: std::ops::Add<Output = N> + Copy> DispatchTime<N> {
	pub fn evaluate(&self, since: N) -> N {
		match self {
			DispatchTime::At(m) => *m,
			DispatchTime::After(m) => *m + since,
		}
	}
}
pub mod v3 {
	use super::*;
	use crate::traits::Bounded;
	pub type TaskName = [u8; 32];
	pub trait Anon<BlockNumber, Call, Origin> {
		type Address;
		type Hasher: shim_base::traits::Hash;
		fn schedule(
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel(address: Self::Address) -> Result<(), DispatchError>;
		fn reschedule(address: Self::Address, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
		fn next_dispatch_time(address: Self::Address) -> Result<BlockNumber, DispatchError>;
	}
	pub trait Named<BlockNumber, Call, Origin> {
		type Address;
		type Hasher: shim_base::traits::Hash;
		fn schedule_named(
			id: TaskName,
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
		fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
		fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
	}
}
