//! Message queue: messages wait by sender and are carried out in turns, within a weight per block.
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		WeightInfo,
		MessageProcessor: [frame_support::traits::ProcessMessage<Origin = cumulus_primitives_core::AggregateMessageOrigin>],
		Size,
		QueueChangeHandler,
		QueuePausedQuery: [frame_support::traits::QueuePausedQuery<cumulus_primitives_core::AggregateMessageOrigin>],
		HeapSize,
		MaxStale,
		ServiceWeight: [frame_support::traits::Get<Option<frame_support::weights::Weight>>],
		IdleMaxServiceWeight
	}
	consts {  }
	calls {
		0 reap_page(page_index: u32);
		1 execute_overweight(page: u32, index: u32);
	}
}
use cumulus_primitives_core::AggregateMessageOrigin as Sender;
use frame_support::storage::unhashed;
use frame_support::traits::{EnqueueMessage, Get, ProcessMessage, QueuePausedQuery};

const QUEUES: &[u8] = b"message queues";
type Queues = Vec<(Sender, Vec<Vec<u8>>)>;

impl<T: Config> EnqueueMessage<Sender> for Pallet<T> {
	fn enqueue_message(message: Vec<u8>, from: Sender) {
		let mut all: Queues = unhashed::get(QUEUES).unwrap_or_default();
		match all.iter_mut().find(|q| q.0 == from) {
			Some(q) => q.1.push(message),
			None => all.push((from, vec![message])),
		}
		unhashed::put(QUEUES, &all);
	}
}
impl<T: Config> Pallet<T> {
	/// The beginning of a block.
	pub fn serve() {
		let Some(mut left) = <T::ServiceWeight as Get<Option<_>>>::get() else { return };
		let mut all: Queues = unhashed::get(QUEUES).unwrap_or_default();
		for (from, waiting) in all.iter_mut() {
			if T::QueuePausedQuery::is_paused(from) {
				continue;
			}
			while let Some(m) = waiting.first() {
				if !T::MessageProcessor::process_message(m, *from, &mut left) {
					break;
				}
				waiting.remove(0);
			}
		}
		// the next has the first turn
		if !all.is_empty() {
			all.rotate_left(1);
		}
		all.retain(|q| !q.1.is_empty());
		unhashed::put(QUEUES, &all);
	}
}
