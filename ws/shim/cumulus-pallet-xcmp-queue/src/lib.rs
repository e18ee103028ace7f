//! Sibling messages: handed on to wait, and held back by whoever controls the queue.
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		ChannelInfo,
		VersionWrapper,
		XcmpQueue: [frame_support::traits::EnqueueMessage<cumulus_primitives_core::ParaId>],
		MaxActiveOutboundChannels,
		MaxPageSize,
		MaxInboundSuspended,
		ControllerOrigin: [frame_support::traits::EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>],
		ControllerOriginConverter: [xcm_executor::traits::ConvertOrigin<<Self as frame_system::Config>::RuntimeOrigin>],
		WeightInfo,
		PriceForSiblingDelivery
	}
	consts {  }
	calls {
		0 suspend_xcm_execution();
		1 resume_xcm_execution();
		2 update_suspend_threshold(new: u32);
	}
}
use cumulus_primitives_core::{ParaId, XcmpMessageHandler};
use frame_support::storage::unhashed;
use frame_support::traits::{EnqueueMessage, EnsureOrigin, QueuePausedQuery};
use xcm::latest::prelude::{Location, OriginKind, Parachain};
use xcm_executor::traits::ConvertOrigin;

const SUSPENDED: &[u8] = b"messages of siblings suspended";

impl<T: Config> Pallet<T> {
	pub fn put_suspended(held: bool) {
		unhashed::put(SUSPENDED, &held);
	}
}
impl<T: Config> XcmpMessageHandler for Pallet<T> {
	fn handle_xcmp_message(sender: ParaId, message: Vec<u8>) {
		T::XcmpQueue::enqueue_message(message, sender)
	}
}
impl<T: Config> QueuePausedQuery<ParaId> for Pallet<T> {
	fn is_paused(para: &ParaId) -> bool {
		// whoever controls the queue is never held back
		let controls = |o| T::ControllerOrigin::try_origin(o).is_ok();
		let id: u32 = (*para).into();
		unhashed::get(SUSPENDED).unwrap_or(false)
			&& !T::ControllerOriginConverter::convert_origin(Location::new(1, [Parachain(id)]), OriginKind::Superuser).map_or(false, controls)
	}
}
