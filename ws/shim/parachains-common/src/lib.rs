//! What parachains share.
use shim_base::arith::Perbill;
pub type Signature = shim_base::runtime::MultiSignature;
pub type AccountId = shim_base::primitives::AccountId32;
pub type BlockNumber = u32;
pub type Balance = u128;
pub type Nonce = u32;
pub type Hash = shim_base::primitives::H256;
pub type Header = shim_base::runtime::generic::Header<BlockNumber, shim_base::traits::BlakeTwo256>;
pub type AssetIdForTrustBackedAssets = u32;
pub type AuraId = shim_base::primitives::sr25519::Public;
pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const SLOT_DURATION: u64 = MILLISECS_PER_BLOCK;
pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
pub mod opaque {
	pub type Header = super::Header;
}
pub mod message_queue {
	use cumulus_primitives_core::{AggregateMessageOrigin, ParaId};
	use frame_support::traits::QueuePausedQuery;
	/// Only messages from siblings can be held back.
	pub struct NarrowOriginToSibling<I>(core::marker::PhantomData<I>);
	impl<I: QueuePausedQuery<ParaId>> QueuePausedQuery<AggregateMessageOrigin> for NarrowOriginToSibling<I> {
		fn is_paused(origin: &AggregateMessageOrigin) -> bool {
			match origin {
				AggregateMessageOrigin::Sibling(id) => I::is_paused(id),
				_ => false,
			}
		}
	}
	pub struct ParaIdToSibling;
	impl shim_base::traits::Convert<ParaId, AggregateMessageOrigin> for ParaIdToSibling {
		fn convert(id: ParaId) -> AggregateMessageOrigin {
			AggregateMessageOrigin::Sibling(id)
		}
	}
}
pub mod impls {
	pub struct NonZeroIssuance<A, F>(core::marker::PhantomData<(A, F)>);
}
pub mod xcm_config {
	pub struct AssetFeeAsExistentialDepositMultiplier<R, W, B, I>(core::marker::PhantomData<(R, W, B, I)>);
}
