//! Fees in other assets.
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use frame_support::extension::{Extension, Refused, Wish};
use frame_support::traits::fungibles::{Balanced, Credit, Inspect};
use frame_support::traits::tokens::{ConversionToAssetBalance, Fortitude, Precision, Preservation, WithdrawConsequence};
use frame_support::weights::WeightToFee;
use pallet_transaction_payment::{actual_fee, fee, OnChargeTransaction};
use parity_scale_codec::Decode;
frame_support::stub_pallet! {
	types { RuntimeEvent, Fungibles, OnChargeAssetTransaction }
	consts { }
	calls { }
}
pub struct FungiblesAdapter<CON, HC>(core::marker::PhantomData<(CON, HC)>);
/// Where fees go.
pub trait Collects {
	type To;
}
impl<CON, HC> Collects for FungiblesAdapter<CON, HC> {
	type To = HC;
}
pub trait HandleCredit<AccountId, B: Balanced<AccountId>> {
	fn handle_credit(credit: Credit<AccountId, B>);
}
impl<A, B: Balanced<A>> HandleCredit<A, B> for () {
	fn handle_credit(_credit: Credit<A, B>) {}
}
/// Taking fees in an asset and giving back what was too much.
pub trait OnChargeAssetTransaction<AccountId, F> {
	type AssetId: Decode;
	type Taken;
	fn withdraw_fee(who: &AccountId, asset: Self::AssetId, fee: u128) -> Result<Self::Taken, Refused>;
	fn correct_and_deposit_fee(who: &AccountId, fee: u128, taken: Self::Taken);
}
impl<A, F, CON, HC> OnChargeAssetTransaction<A, F> for FungiblesAdapter<CON, HC>
where
	F: Balanced<A> + Inspect<A, Balance = u128>,
	F::AssetId: Decode + Clone,
	CON: ConversionToAssetBalance<u128, F::AssetId, u128>,
	HC: HandleCredit<A, F>,
{
	type AssetId = F::AssetId;
	type Taken = Credit<A, F>;
	fn withdraw_fee(who: &A, asset: F::AssetId, fee: u128) -> Result<Self::Taken, Refused> {
		let fee = CON::to_asset_balance(fee, asset.clone()).map_err(|_| Refused::Payment)?.max((fee > 0) as u128);
		if !matches!(F::can_withdraw(asset.clone(), who, fee), WithdrawConsequence::Success) {
			return Err(Refused::Payment);
		}
		F::withdraw(asset, who, fee, Precision::Exact, Preservation::Protect, Fortitude::Polite).map_err(|_| Refused::Payment)
	}
	fn correct_and_deposit_fee(who: &A, fee: u128, taken: Self::Taken) {
		let (asset, all) = (taken.asset(), taken.peek());
		core::mem::forget(taken);
		let fee = CON::to_asset_balance(fee, asset.clone()).unwrap_or(all).max((fee > 0) as u128).min(all);
		let _ = F::resolve(who, Credit::new(asset.clone(), all - fee));
		HC::handle_credit(Credit::new(asset, fee))
	}
}
pub struct ChargeAssetTxPayment<T>(u128, Option<Vec<u8>>, core::marker::PhantomData<T>);
pub enum Taken<N, A> {
	Nothing,
	Native(N),
	Asset(A),
}
impl<T: Config + pallet_transaction_payment::Config> Extension for ChargeAssetTxPayment<T>
where
	<T as pallet_transaction_payment::Config>::OnChargeTransaction: OnChargeTransaction<T::AccountId>,
	T::OnChargeAssetTransaction: OnChargeAssetTransaction<T::AccountId, T::Fungibles>,
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
{
	type AccountId = T::AccountId;
	type Call = <T as frame_system::Config>::RuntimeCall;
	type Pre = (
		T::AccountId,
		u128,
		Taken<
			Option<<<T as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<T::AccountId>>::Taken>,
			<T::OnChargeAssetTransaction as OnChargeAssetTransaction<T::AccountId, T::Fungibles>>::Taken,
		>,
	);
	fn written(w: &Wish) -> Self {
		ChargeAssetTxPayment(w.tip, w.asset.clone(), core::marker::PhantomData)
	}
	fn before(self, who: &T::AccountId, _: &Self::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused> {
		let due = fee::<T>(len, info, info.weight, info.pays_fee, self.0);
		let taken = match &self.1 {
			_ if due == 0 => Taken::Nothing,
			Some(a) => {
				let a = Decode::decode(&mut &a[..]).map_err(|_| Refused::Payment)?;
				Taken::Asset(T::OnChargeAssetTransaction::withdraw_fee(who, a, due)?)
			}
			None => Taken::Native(<T as pallet_transaction_payment::Config>::OnChargeTransaction::withdraw_fee(who, due)?),
		};
		Ok((who.clone(), self.0, taken))
	}
	fn after((who, tip, taken): Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
		let due = actual_fee::<T>(len, info, post, tip);
		match taken {
			Taken::Nothing => {}
			Taken::Native(t) => <T as pallet_transaction_payment::Config>::OnChargeTransaction::correct_and_deposit_fee(&who, due, t),
			Taken::Asset(t) => T::OnChargeAssetTransaction::correct_and_deposit_fee(&who, due, t),
		}
	}
}
