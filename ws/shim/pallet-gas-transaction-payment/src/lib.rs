//! Fees out of gas tanks first.
use fc_traits_gas_tank::GasBurner;
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use frame_support::extension::{Extension, Implied, Refused, Wish};
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		GasBurner
	}
	consts {  }
	calls {

	}
}

pub struct ChargeTransactionPayment<T, S>(S, core::marker::PhantomData<T>);
pub enum Paid<A, P> {
	Gas(A),
	Otherwise(P),
}
impl<T: Config, S: Extension<AccountId = T::AccountId>> Extension for ChargeTransactionPayment<T, S>
where
	T::GasBurner: GasBurner<AccountId = T::AccountId>,
{
	type AccountId = T::AccountId;
	type Call = S::Call;
	type Pre = Paid<T::AccountId, S::Pre>;
	fn written(w: &Wish) -> Self {
		ChargeTransactionPayment(S::written(w), core::marker::PhantomData)
	}
	fn implied(&self) -> Result<Implied, Refused> {
		self.0.implied()
	}
	fn before(self, who: &T::AccountId, call: &S::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused> {
		match T::GasBurner::check_available_gas(who, &info.weight) {
			Some(_) => Ok(Paid::Gas(who.clone())),
			None => self.0.before(who, call, info, len).map(Paid::Otherwise),
		}
	}
	fn after(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
		match pre {
			Paid::Gas(who) => T::GasBurner::burn_gas(&who, &post.calc_actual_weight(info)),
			Paid::Otherwise(p) => S::after(p, info, post, len),
		}
	}
}
