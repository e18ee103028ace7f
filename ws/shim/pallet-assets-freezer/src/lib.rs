//! Freezes on assets, following the original.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{fungibles, VariantCount};
	use frame_system::pallet_prelude::*;
	use shim_base::arith::Zero;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config + pallet_assets::Config<I> {
		type RuntimeFreezeReason: Parameter + Member + MaxEncodedLen + Copy + VariantCount;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Freezes<T: Config<I>, I: 'static = ()> = StorageDoubleMap<
		_,
		Blake2_128Concat,
		T::AssetId,
		Blake2_128Concat,
		T::AccountId,
		Vec<(T::RuntimeFreezeReason, T::Balance)>,
		ValueQuery,
	>;
	#[pallet::storage]
	pub type FrozenBalances<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, T::Balance>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Frozen { who: T::AccountId, asset_id: T::AssetId, amount: T::Balance },
		Thawed { who: T::AccountId, asset_id: T::AssetId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		TooManyFreezes,
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		fn update(asset: T::AssetId, who: &T::AccountId, f: Vec<(T::RuntimeFreezeReason, T::Balance)>) -> DispatchResult {
			let before = FrozenBalances::<T, I>::get(&asset, who).unwrap_or_else(Zero::zero);
			let after = f.iter().fold(T::Balance::zero(), |a, x| a.max(x.1));
			if f.is_empty() {
				Freezes::<T, I>::remove(&asset, who);
				FrozenBalances::<T, I>::remove(&asset, who);
			} else {
				Freezes::<T, I>::insert(&asset, who, f);
				FrozenBalances::<T, I>::insert(&asset, who, after);
			}
			if after > before {
				Self::deposit_event(Event::Frozen { who: who.clone(), asset_id: asset, amount: after - before });
			} else if after < before {
				Self::deposit_event(Event::Thawed { who: who.clone(), asset_id: asset, amount: before - after });
			}
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> pallet_assets::FrozenBalance<T::AssetId, T::AccountId, T::Balance> for Pallet<T, I> {
		fn frozen_balance(asset: T::AssetId, who: &T::AccountId) -> Option<T::Balance> {
			FrozenBalances::<T, I>::get(asset, who)
		}
		fn died(asset: T::AssetId, who: &T::AccountId) {
			FrozenBalances::<T, I>::remove(&asset, who);
			Freezes::<T, I>::remove(&asset, who);
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
		type AssetId = T::AssetId;
		type Balance = T::Balance;
		fn total_issuance(a: T::AssetId) -> T::Balance {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::total_issuance(a)
		}
		fn minimum_balance(a: T::AssetId) -> T::Balance {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::minimum_balance(a)
		}
		fn total_balance(a: T::AssetId, who: &T::AccountId) -> T::Balance {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::total_balance(a, who)
		}
		fn balance(a: T::AssetId, who: &T::AccountId) -> T::Balance {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::balance(a, who)
		}
		fn reducible_balance(
			a: T::AssetId,
			who: &T::AccountId,
			p: frame_support::traits::tokens::Preservation,
			f: frame_support::traits::tokens::Fortitude,
		) -> T::Balance {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::reducible_balance(a, who, p, f)
		}
		fn can_deposit(
			a: T::AssetId,
			who: &T::AccountId,
			amount: T::Balance,
			p: frame_support::traits::tokens::Provenance,
		) -> frame_support::traits::tokens::DepositConsequence {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::can_deposit(a, who, amount, p)
		}
		fn can_withdraw(a: T::AssetId, who: &T::AccountId, amount: T::Balance) -> frame_support::traits::tokens::WithdrawConsequence<T::Balance> {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::can_withdraw(a, who, amount)
		}
		fn asset_exists(a: T::AssetId) -> bool {
			<pallet_assets::Pallet<T, I> as fungibles::Inspect<_>>::asset_exists(a)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::InspectFreeze<T::AccountId> for Pallet<T, I> {
		type Id = T::RuntimeFreezeReason;
		fn balance_frozen(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> T::Balance {
			Freezes::<T, I>::get(asset, who).iter().find(|x| &x.0 == id).map_or_else(Zero::zero, |x| x.1)
		}
		fn can_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> bool {
			let f = Freezes::<T, I>::get(asset, who);
			f.iter().any(|x| &x.0 == id) || (f.len() as u32) < T::RuntimeFreezeReason::VARIANT_COUNT
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::MutateFreeze<T::AccountId> for Pallet<T, I> {
		fn set_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
			if amount.is_zero() {
				return Self::thaw(asset, id, who);
			}
			let mut f = Freezes::<T, I>::get(&asset, who);
			if let Some(x) = f.iter_mut().find(|x| &x.0 == id) {
				x.1 = amount;
			} else {
				f.push((*id, amount));
			}
			Self::update(asset, who, f)
		}
		fn extend_freeze(asset: T::AssetId, id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
			if amount.is_zero() {
				return Ok(());
			}
			let mut f = Freezes::<T, I>::get(&asset, who);
			if let Some(x) = f.iter_mut().find(|x| &x.0 == id) {
				x.1 = x.1.max(amount);
			} else {
				f.push((*id, amount));
			}
			Self::update(asset, who, f)
		}
		fn thaw(asset: T::AssetId, id: &Self::Id, who: &T::AccountId) -> DispatchResult {
			let mut f = Freezes::<T, I>::get(&asset, who);
			f.retain(|x| &x.0 != id);
			Self::update(asset, who, f)
		}
	}
}
