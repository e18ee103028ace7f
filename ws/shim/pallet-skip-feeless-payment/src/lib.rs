//! Feeless calls.
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use frame_support::extension::{CheckIfFeeless, Extension, Implied, Refused, Wish};
frame_support::stub_pallet! {
	types {
		RuntimeEvent
	}
	consts {  }
	calls {

	}
}

pub struct SkipCheckIfFeeless<T, S>(S, core::marker::PhantomData<T>);
impl<T: frame_system::Config, S: Extension<AccountId = T::AccountId, Call = <T as frame_system::Config>::RuntimeCall>> Extension for SkipCheckIfFeeless<T, S>
where
	<T as frame_system::Config>::RuntimeCall: CheckIfFeeless<Origin = <T as frame_system::Config>::RuntimeOrigin>,
{
	type AccountId = T::AccountId;
	type Call = S::Call;
	type Pre = Option<S::Pre>;
	fn written(w: &Wish) -> Self {
		SkipCheckIfFeeless(S::written(w), core::marker::PhantomData)
	}
	fn implied(&self) -> Result<Implied, Refused> {
		self.0.implied()
	}
	fn before(self, who: &T::AccountId, call: &S::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused> {
		match call.is_feeless(&frame_system::RawOrigin::Signed(who.clone()).into()) {
			true => Ok(None),
			false => self.0.before(who, call, info, len).map(Some),
		}
	}
	fn after(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
		if let Some(p) = pre {
			S::after(p, info, post, len)
		}
	}
}
