//! Tracks that can be added and removed at run time.
use frame_support::pallet_prelude::DispatchResult;
use pallet_referenda::{TrackInfo, TracksInfo};
pub trait MutateTracks<Balance: Clone + 'static, Moment: Clone + 'static>: TracksInfo<Balance, Moment> {
	fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
	fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
	fn remove(id: Self::Id, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
}
