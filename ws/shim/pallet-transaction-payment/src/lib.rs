//! Transaction fees in the native currency.
use frame_support::dispatch::{DispatchInfo, Pays, PostDispatchInfo};
use frame_support::extension::Refused;
use frame_support::traits::fungible::{Balanced, Credit, Inspect};
use frame_support::traits::tokens::{Fortitude, Precision, Preservation};
use frame_support::traits::{Get, OnUnbalanced};
use frame_support::weights::{Weight, WeightToFee};
frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		OnChargeTransaction,
		WeightToFee,
		LengthToFee,
		FeeMultiplierUpdate,
		OperationalFeeMultiplier
	}
	consts {  }
	calls {

	}
}

pub struct FungibleAdapter<F, OU>(core::marker::PhantomData<(F, OU)>);
/// Where fees go.
pub trait Collects {
	type Fungible;
	type To;
}
impl<F, OU> Collects for FungibleAdapter<F, OU> {
	type Fungible = F;
	type To = OU;
}
/// What a transaction costs: for being one, for its length, for its weight, and what its sender adds.
pub fn fee<T: Config>(len: usize, info: &DispatchInfo, weight: Weight, pays: Pays, tip: u128) -> u128
where
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
{
	if pays == Pays::No {
		return tip;
	}
	let limits = <T as frame_system::Config>::BlockWeights::get();
	let priced = |w: Weight| T::WeightToFee::weight_to_fee(&w.min(limits.max_block));
	let length = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
	priced(limits.get(info.class).base_extrinsic).saturating_add(length).saturating_add(priced(weight)).saturating_add(tip)
}
/// What it costs after all.
pub fn actual_fee<T: Config>(len: usize, info: &DispatchInfo, post: &PostDispatchInfo, tip: u128) -> u128
where
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
{
	let pays = if info.pays_fee == Pays::No || post.pays_fee == Pays::No { Pays::No } else { Pays::Yes };
	fee::<T>(len, info, post.calc_actual_weight(info), pays, tip)
}
/// Taking fees and giving back what was too much.
pub trait OnChargeTransaction<AccountId> {
	type Taken;
	fn withdraw_fee(who: &AccountId, fee: u128) -> Result<Option<Self::Taken>, Refused>;
	fn correct_and_deposit_fee(who: &AccountId, fee: u128, taken: Option<Self::Taken>);
}
impl<A, F: Balanced<A> + Inspect<A, Balance = u128>, OU: OnUnbalanced<Credit<A, F>>> OnChargeTransaction<A> for FungibleAdapter<F, OU> {
	type Taken = Credit<A, F>;
	fn withdraw_fee(who: &A, fee: u128) -> Result<Option<Self::Taken>, Refused> {
		if fee == 0 {
			return Ok(None);
		}
		F::withdraw(who, fee, Precision::Exact, Preservation::Preserve, Fortitude::Polite).map(Some).map_err(|_| Refused::Payment)
	}
	fn correct_and_deposit_fee(who: &A, fee: u128, taken: Option<Self::Taken>) {
		let Some(taken) = taken else { return };
		let all = taken.peek();
		core::mem::forget(taken);
		let back = all.saturating_sub(fee);
		// what cannot be given back stays with the fee
		let returned = if F::total_balance(who) > 0 { F::increase_balance(who, back, Precision::BestEffort).unwrap_or(0) } else { 0 };
		OU::on_unbalanced(Credit::new(all - returned))
	}
}
pub struct CurrencyAdapter<F, OU>(core::marker::PhantomData<(F, OU)>);
pub struct ChargeTransactionPayment<T>(pub u128, core::marker::PhantomData<T>);
impl<T: Config> frame_support::extension::Extension for ChargeTransactionPayment<T>
where
	T::OnChargeTransaction: OnChargeTransaction<T::AccountId>,
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
{
	type AccountId = T::AccountId;
	type Call = <T as frame_system::Config>::RuntimeCall;
	type Pre = (T::AccountId, u128, Option<<T::OnChargeTransaction as OnChargeTransaction<T::AccountId>>::Taken>);
	fn written(w: &frame_support::extension::Wish) -> Self {
		ChargeTransactionPayment(w.tip, core::marker::PhantomData)
	}
	fn before(self, who: &T::AccountId, _: &Self::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused> {
		let taken = T::OnChargeTransaction::withdraw_fee(who, fee::<T>(len, info, info.weight, info.pays_fee, self.0))?;
		Ok((who.clone(), self.0, taken))
	}
	fn after((who, tip, taken): Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
		T::OnChargeTransaction::correct_and_deposit_fee(&who, actual_fee::<T>(len, info, post, tip), taken)
	}
}
