//! Execution of signed transactions; blocks are not modelled.
use frame_support::dispatch::{DispatchInfo, DispatchResult, GetDispatchInfo, PostDispatchInfo};
use frame_support::extension::{proven, Extension, Refused, Signed, Wish};
use frame_support::traits::OriginTrait;
use shim_base::runtime::generic::ExtrinsicParts;
use shim_base::traits::{Block, Dispatchable, StaticLookup};
pub struct Executive<S, B, C, U, A, M = ()>(core::marker::PhantomData<(S, B, C, U, A, M)>);

/// What a chain's transactions consist of.
pub type Parts<T> = <<T as frame_system::Config>::Block as Block>::Extrinsic;
/// What became of a transaction that was accepted.
pub struct Applied {
	pub info: DispatchInfo,
	pub post: PostDispatchInfo,
	pub result: DispatchResult,
}
/// One signed transaction. One that is refused leaves no trace.
pub fn apply<T>(address: <Parts<T> as ExtrinsicParts>::Address, call: T::RuntimeCall, wish: &Wish, signed: &Signed<T::AccountId>, len: usize) -> Result<Applied, Refused>
where
	T: frame_system::Config,
	T::RuntimeCall: GetDispatchInfo,
	Parts<T>: ExtrinsicParts<Call = T::RuntimeCall>,
	<Parts<T> as ExtrinsicParts>::Extra: Extension<AccountId = T::AccountId, Call = T::RuntimeCall>,
	<Parts<T> as ExtrinsicParts>::Address: Into<<T::Lookup as StaticLookup>::Source>,
{
	type X<T> = <Parts<T> as ExtrinsicParts>::Extra;
	frame_support::storage::with_storage_layer(|| {
		let extra = X::<T>::written(wish);
		let who = T::Lookup::lookup(address.into()).map_err(|_| Refused::Lookup)?;
		proven(&extra, &who, signed)?;
		let info = call.get_dispatch_info();
		let pre = extra.before(&who, &call, &info, len)?;
		let res = call.dispatch(T::RuntimeOrigin::signed(who));
		let (post, result) = match res {
			Ok(p) => (p, Ok(())),
			Err(e) => (e.post_info, Err(e.error)),
		};
		X::<T>::after(pre, &info, &post, len);
		Ok(Applied { info, post, result })
	})
}
