//! Fees and delivery; what is paid in which asset and where it goes, the rest are names.
use core::marker::PhantomData;
use frame_support::traits::{fungibles, Get};
use xcm::latest::prelude::*;
use xcm_builder::PaidIn;
use xcm_executor::traits::{MatchesFungibles, TransactAsset};

pub struct ParentAsUmp<T, W, P>(PhantomData<(T, W, P)>);
pub trait TakeRevenue {
	fn take_revenue(revenue: Asset);
}
pub struct TakeFirstAssetTrader<A, F, M, C, H>(PhantomData<(A, F, M, C, H)>);
impl<A, F, M: MatchesFungibles<C::AssetId, C::Balance>, C: fungibles::Inspect<A>, H: TakeRevenue> PaidIn for TakeFirstAssetTrader<A, F, M, C, H> {
	fn pays(a: &Asset) -> bool {
		M::matches_fungibles(a).is_ok()
	}
	fn collect(a: &Asset) -> bool {
		let pays = Self::pays(a);
		if pays {
			H::take_revenue(a.clone());
		}
		pays
	}
}
pub struct XcmFeesTo32ByteAccount<F, A, R>(PhantomData<(F, A, R)>);
impl<F: TransactAsset, A: Into<[u8; 32]> + Clone, R: Get<Option<A>>> TakeRevenue for XcmFeesTo32ByteAccount<F, A, R> {
	fn take_revenue(revenue: Asset) {
		if let Some(to) = R::get() {
			let _ = F::deposit_asset(&revenue, &Location::new(0, [AccountId32 { network: None, id: to.into() }]));
		}
	}
}
