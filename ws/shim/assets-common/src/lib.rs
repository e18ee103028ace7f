//! Balances as assets of the consensus system.
pub mod runtime_api {
	use parity_scale_codec::{Decode, Encode};
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum FungiblesAccessError {
		AssetIdConversionFailed,
		AmountToBalanceConversionFailed,
	}
}
pub mod fungible_conversion {
	use crate::runtime_api::FungiblesAccessError;
	use core::borrow::Borrow;
	use frame_support::traits::{Contains, Get};
	use shim_base::traits::MaybeEquivalence;
	use xcm::latest::{Asset, AssetId, Fungibility, Location};
	use xcm_builder::{ConvertedConcreteId, MatchedConvertedConcreteId};

	pub trait MatchedConvertedConcreteIdConverter<A, B, CA, CB>
	where
		CA: MaybeEquivalence<Location, A>,
		CB: MaybeEquivalence<u128, B>,
	{
		fn convert_ref(value: impl Borrow<(A, B)>) -> Result<Asset, FungiblesAccessError> {
			let (id, amount) = value.borrow();
			let id = CA::convert_back(id).ok_or(FungiblesAccessError::AssetIdConversionFailed)?;
			let amount = CB::convert_back(amount).ok_or(FungiblesAccessError::AmountToBalanceConversionFailed)?;
			Ok(Asset { id: AssetId(id), fun: Fungibility::Fungible(amount) })
		}
	}
	impl<A: Clone, B: Clone, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchedConvertedConcreteIdConverter<A, B, CA, CB>
		for ConvertedConcreteId<A, B, CA, CB>
	{
	}
	impl<A: Clone, B: Clone, M: Contains<Location>, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>>
		MatchedConvertedConcreteIdConverter<A, B, CA, CB> for MatchedConvertedConcreteId<A, B, M, CA, CB>
	{
	}

	pub fn convert<'a, A, B, CA, CB, Converter>(items: impl Iterator<Item = &'a (A, B)>) -> Result<Vec<Asset>, FungiblesAccessError>
	where
		A: Clone + 'a,
		B: Clone + 'a,
		CA: MaybeEquivalence<Location, A>,
		CB: MaybeEquivalence<u128, B>,
		Converter: MatchedConvertedConcreteIdConverter<A, B, CA, CB>,
	{
		items.map(Converter::convert_ref).collect()
	}
	pub fn convert_balance<T: Get<Location>, B: TryInto<u128>>(balance: B) -> Result<Asset, FungiblesAccessError> {
		let amount: u128 = balance.try_into().map_err(|_| FungiblesAccessError::AmountToBalanceConversionFailed)?;
		Ok(Asset { id: AssetId(T::get()), fun: Fungibility::Fungible(amount) })
	}
}
