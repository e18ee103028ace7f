//! Fungible assets with minimum balances, sufficiency, account/asset freezing, a freezer hook and holds,
//! following the logic of the original.
#![feature(associated_type_defaults)]
use frame_support::traits::tokens::*;
use frame_support::traits::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::{CheckedAdd, CheckedSub, Saturating, Zero};
use shim_base::runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};

pub use pallet::*;
pub mod config_preludes {
	pub struct TestDefaultConfig;
}
pub trait DefaultConfig {}
pub mod weights {
	use frame_support::weights::Weight;
	pub trait WeightInfo {
		fn create() -> Weight {
			Weight::zero()
		}
		fn force_create() -> Weight {
			Weight::zero()
		}
		fn start_destroy() -> Weight {
			Weight::zero()
		}
		fn destroy_accounts(_: u32) -> Weight {
			Weight::zero()
		}
		fn destroy_approvals(_: u32) -> Weight {
			Weight::zero()
		}
		fn finish_destroy() -> Weight {
			Weight::zero()
		}
		fn mint() -> Weight {
			Weight::zero()
		}
		fn burn() -> Weight {
			Weight::zero()
		}
		fn transfer() -> Weight {
			Weight::zero()
		}
		fn transfer_keep_alive() -> Weight {
			Weight::zero()
		}
		fn force_transfer() -> Weight {
			Weight::zero()
		}
		fn freeze() -> Weight {
			Weight::zero()
		}
		fn thaw() -> Weight {
			Weight::zero()
		}
		fn freeze_asset() -> Weight {
			Weight::zero()
		}
		fn thaw_asset() -> Weight {
			Weight::zero()
		}
		fn transfer_ownership() -> Weight {
			Weight::zero()
		}
		fn set_team() -> Weight {
			Weight::zero()
		}
		fn set_metadata(_: u32, _: u32) -> Weight {
			Weight::zero()
		}
		fn clear_metadata() -> Weight {
			Weight::zero()
		}
		fn force_set_metadata(_: u32, _: u32) -> Weight {
			Weight::zero()
		}
		fn force_clear_metadata() -> Weight {
			Weight::zero()
		}
		fn force_asset_status() -> Weight {
			Weight::zero()
		}
		fn approve_transfer() -> Weight {
			Weight::zero()
		}
		fn transfer_approved() -> Weight {
			Weight::zero()
		}
		fn cancel_approval() -> Weight {
			Weight::zero()
		}
		fn force_cancel_approval() -> Weight {
			Weight::zero()
		}
		fn set_min_balance() -> Weight {
			Weight::zero()
		}
		fn touch() -> Weight {
			Weight::zero()
		}
		fn touch_other() -> Weight {
			Weight::zero()
		}
		fn refund() -> Weight {
			Weight::zero()
		}
		fn refund_other() -> Weight {
			Weight::zero()
		}
		fn block() -> Weight {
			Weight::zero()
		}
		fn transfer_all() -> Weight {
			Weight::zero()
		}
	}
	impl WeightInfo for () {}
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}

pub use weights::WeightInfo;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ConversionError {
	MinBalanceZero,
	AssetMissing,
	AssetNotSufficient,
}
/// Native balance to asset balance, in proportion of the two minimum balances.
pub struct BalanceToAssetBalance<F, T, CON, I = ()>(std::marker::PhantomData<(F, T, CON, I)>);
impl<F, T, CON, I> ConversionToAssetBalance<F::Balance, T::AssetId, T::Balance> for BalanceToAssetBalance<F, T, CON, I>
where
	F: fungible::Inspect<T::AccountId>,
	T: Config<I>,
	I: 'static,
	CON: shim_base::traits::Convert<F::Balance, T::Balance>,
{
	type Error = ConversionError;
	fn to_asset_balance(balance: F::Balance, asset: T::AssetId) -> Result<T::Balance, ConversionError> {
		use shim_base::arith::SaturatedConversion;
		let asset = Asset::<T, I>::get(asset).ok_or(ConversionError::AssetMissing)?;
		frame_support::ensure!(asset.is_sufficient, ConversionError::AssetNotSufficient);
		let min_balance = CON::convert(F::minimum_balance());
		frame_support::ensure!(!min_balance.is_zero(), ConversionError::MinBalanceZero);
		Ok(shim_base::fixed::FixedU128::saturating_from_rational(
			asset.min_balance.saturated_into::<u128>(),
			min_balance.saturated_into::<u128>(),
		)
		.saturating_mul_int(CON::convert(balance).saturated_into::<u128>())
		.saturated_into())
	}
}

pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<AssetId, AccountId, Balance> FrozenBalance<AssetId, AccountId, Balance> for () {
	fn frozen_balance(_: AssetId, _: &AccountId) -> Option<Balance> {
		None
	}
	fn died(_: AssetId, _: &AccountId) {}
}
pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_: &AssetId, _: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<A, B> AssetsCallback<A, B> for () {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub deposit: DepositBalance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub approvals: u32,
	pub status: AssetStatus,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum ExistenceReason {
	Consumer,
	Sufficient,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AccountStatus {
	Liquid,
	Frozen,
	Blocked,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AssetAccount<Balance> {
	pub balance: Balance,
	pub status: AccountStatus,
	pub reason: ExistenceReason,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use shim_base::traits::StaticLookup;
	pub(crate) type Src<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
	pub(crate) type Details<T, I> =
		AssetDetails<<T as Config<I>>::Balance, <T as frame_system::Config>::AccountId, <T as Config<I>>::Balance>;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: frame_support::traits::tokens::Balance;
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Member + Parameter + Clone + MaxEncodedLen;
		type AssetIdParameter: Parameter + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		type Currency;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit;
		type AssetAccountDeposit;
		type MetadataDepositBase;
		type MetadataDepositPerByte;
		type ApprovalDeposit;
		type StringLimit: Get<u32>;
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type Extra;
		type MaxHolds = ();
		type WeightInfo;
		type CallbackHandle: AssetsCallback<Self::AssetId, Self::AccountId>;
		type RuntimeHoldReason: Parameter + Member + MaxEncodedLen + Copy + VariantCount;
		#[cfg(feature = "runtime-benchmarks")]
		type BenchmarkHelper;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, Details<T, I>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, AssetAccount<T::Balance>>;
	#[pallet::storage]
	pub type Metadata<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, (Vec<u8>, Vec<u8>, u8), ValueQuery>;
	#[pallet::storage]
	pub type Holds<T: Config<I>, I: 'static = ()> = StorageDoubleMap<
		_,
		Blake2_128Concat,
		T::AssetId,
		Blake2_128Concat,
		T::AccountId,
		Vec<(T::RuntimeHoldReason, T::Balance)>,
		ValueQuery,
	>;
	#[pallet::storage]
	pub type NextAssetId<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AssetId>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { asset_id: T::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: T::AssetId, owner: T::AccountId, amount: T::Balance },
		Transferred { asset_id: T::AssetId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Burned { asset_id: T::AssetId, owner: T::AccountId, balance: T::Balance },
		Frozen { asset_id: T::AssetId, who: T::AccountId },
		Thawed { asset_id: T::AssetId, who: T::AccountId },
		AssetFrozen { asset_id: T::AssetId },
		AssetThawed { asset_id: T::AssetId },
		ForceCreated { asset_id: T::AssetId, owner: T::AccountId },
		Blocked { asset_id: T::AssetId, who: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
		BadAssetId,
		TooManyHolds,
	}
	macro_rules! unmodelled {
		() => {
			Err(DispatchError::Other("call is not modelled by this stand-in"))
		};
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: Src<T>, min_balance: T::Balance) -> DispatchResult {
			let id: T::AssetId = id.into();
			let owner = T::CreateOrigin::ensure_origin(origin, &id)?;
			let admin = T::Lookup::lookup(admin)?;
			ensure!(!Asset::<T, I>::contains_key(&id), Error::<T, I>::InUse);
			ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
			Self::insert_asset(id.clone(), owner.clone(), admin, false, min_balance);
			Self::deposit_event(Event::Created { asset_id: id, creator: owner.clone(), owner });
			Ok(())
		}
		#[pallet::call_index(1)]
		pub fn force_create(origin: OriginFor<T>, id: T::AssetIdParameter, owner: Src<T>, is_sufficient: bool, #[pallet::compact] min_balance: T::Balance) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			Self::do_force_create(id.into(), owner, is_sufficient, min_balance)
		}
		#[pallet::call_index(2)]
		pub fn start_destroy(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(3)]
		pub fn destroy_accounts(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(4)]
		pub fn destroy_approvals(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(5)]
		pub fn finish_destroy(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(6)]
		pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: Src<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let b = T::Lookup::lookup(beneficiary)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.issuer == who, Error::<T, I>::NoPermission);
			<Self as fungibles::Mutate<_>>::mint_into(id, &b, amount)?;
			Ok(())
		}
		#[pallet::call_index(7)]
		pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: Src<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let admin = ensure_signed(origin)?;
			let w = T::Lookup::lookup(who)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.admin == admin, Error::<T, I>::NoPermission);
			<Self as fungibles::Mutate<_>>::burn_from(id, &w, amount, Preservation::Expendable, Precision::BestEffort, Fortitude::Force)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: Src<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(target)?;
			<Self as fungibles::Mutate<_>>::transfer(id.into(), &s, &d, amount, Preservation::Expendable).map(|_| ())
		}
		#[pallet::call_index(9)]
		pub fn transfer_keep_alive(origin: OriginFor<T>, id: T::AssetIdParameter, target: Src<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(target)?;
			<Self as fungibles::Mutate<_>>::transfer(id.into(), &s, &d, amount, Preservation::Preserve).map(|_| ())
		}
		#[pallet::call_index(10)]
		pub fn force_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, source: Src<T>, dest: Src<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let (s, d) = (T::Lookup::lookup(source)?, T::Lookup::lookup(dest)?);
			let id: T::AssetId = id.into();
			let det = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(det.admin == who, Error::<T, I>::NoPermission);
			<Self as fungibles::Mutate<_>>::transfer(id, &s, &d, amount, Preservation::Expendable).map(|_| ())
		}
		#[pallet::call_index(11)]
		pub fn freeze(origin: OriginFor<T>, id: T::AssetIdParameter, who: Src<T>) -> DispatchResult {
			Self::set_status(origin, id, who, AccountStatus::Frozen)
		}
		#[pallet::call_index(12)]
		pub fn thaw(origin: OriginFor<T>, id: T::AssetIdParameter, who: Src<T>) -> DispatchResult {
			Self::set_status(origin, id, who, AccountStatus::Liquid)
		}
		#[pallet::call_index(13)]
		pub fn freeze_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Self::set_asset_status(who, id.into(), AssetStatus::Frozen)
		}
		#[pallet::call_index(14)]
		pub fn thaw_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Self::set_asset_status(who, id.into(), AssetStatus::Live)
		}
		#[pallet::call_index(15)]
		pub fn transfer_ownership(_origin: OriginFor<T>, _id: T::AssetIdParameter, _owner: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(16)]
		pub fn set_team(_origin: OriginFor<T>, _id: T::AssetIdParameter, _issuer: Src<T>, _admin: Src<T>, _freezer: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(17)]
		pub fn set_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter, _name: Vec<u8>, _symbol: Vec<u8>, _decimals: u8) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(18)]
		pub fn clear_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(19)]
		pub fn force_set_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter, _name: Vec<u8>, _symbol: Vec<u8>, _decimals: u8, _is_frozen: bool) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(20)]
		pub fn force_clear_metadata(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(22)]
		pub fn approve_transfer(_origin: OriginFor<T>, _id: T::AssetIdParameter, _delegate: Src<T>, #[pallet::compact] _amount: T::Balance) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(23)]
		pub fn cancel_approval(_origin: OriginFor<T>, _id: T::AssetIdParameter, _delegate: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(24)]
		pub fn force_cancel_approval(_origin: OriginFor<T>, _id: T::AssetIdParameter, _owner: Src<T>, _delegate: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(25)]
		pub fn transfer_approved(_origin: OriginFor<T>, _id: T::AssetIdParameter, _owner: Src<T>, _destination: Src<T>, #[pallet::compact] _amount: T::Balance) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(26)]
		pub fn touch(_origin: OriginFor<T>, _id: T::AssetIdParameter) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(27)]
		pub fn refund(_origin: OriginFor<T>, _id: T::AssetIdParameter, _allow_burn: bool) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(28)]
		pub fn set_min_balance(_origin: OriginFor<T>, _id: T::AssetIdParameter, _min_balance: T::Balance) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(29)]
		pub fn touch_other(_origin: OriginFor<T>, _id: T::AssetIdParameter, _who: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(30)]
		pub fn refund_other(_origin: OriginFor<T>, _id: T::AssetIdParameter, _who: Src<T>) -> DispatchResult {
			unmodelled!()
		}
		#[pallet::call_index(31)]
		pub fn block(origin: OriginFor<T>, id: T::AssetIdParameter, who: Src<T>) -> DispatchResult {
			Self::set_status(origin, id, who, AccountStatus::Blocked)
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub(crate) fn insert_asset(id: T::AssetId, owner: T::AccountId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) {
			Asset::<T, I>::insert(
				&id,
				AssetDetails {
					issuer: admin.clone(),
					freezer: admin.clone(),
					owner,
					admin,
					supply: Zero::zero(),
					deposit: Zero::zero(),
					min_balance,
					is_sufficient,
					accounts: 0,
					sufficients: 0,
					approvals: 0,
					status: AssetStatus::Live,
				},
			);
		}
		pub fn do_force_create(id: T::AssetId, owner: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
			ensure!(!Asset::<T, I>::contains_key(&id), Error::<T, I>::InUse);
			ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
			Self::insert_asset(id.clone(), owner.clone(), owner.clone(), is_sufficient, min_balance);
			Self::deposit_event(Event::ForceCreated { asset_id: id, owner });
			Ok(())
		}
		fn set_status(origin: OriginFor<T>, id: T::AssetIdParameter, who: Src<T>, status: AccountStatus) -> DispatchResult {
			let caller = ensure_signed(origin)?;
			let w = T::Lookup::lookup(who)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
			let boss = if status == AccountStatus::Liquid { &d.admin } else { &d.freezer };
			ensure!(*boss == caller, Error::<T, I>::NoPermission);
			Account::<T, I>::try_mutate(&id, &w, |a| -> DispatchResult {
				a.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = status;
				Ok(())
			})?;
			Self::deposit_event(Event::Frozen { asset_id: id, who: w });
			Ok(())
		}
		fn set_asset_status(who: T::AccountId, id: T::AssetId, status: AssetStatus) -> DispatchResult {
			Asset::<T, I>::try_mutate(&id, |d| {
				let d = d.as_mut().ok_or(Error::<T, I>::Unknown)?;
				let boss = if status == AssetStatus::Live { &d.admin } else { &d.freezer };
				ensure!(*boss == who, Error::<T, I>::NoPermission);
				d.status = status;
				Ok(())
			})
		}
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
		pub next_asset_id: Option<T::AssetId>,
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (id, owner, suff, min) in &self.assets {
				Pallet::<T, I>::insert_asset(id.clone(), owner.clone(), owner.clone(), *suff, *min);
			}
			for (id, n, s, d) in &self.metadata {
				Metadata::<T, I>::insert(id, (n.clone(), s.clone(), *d));
			}
			for (id, who, amount) in &self.accounts {
				<Pallet<T, I> as fungibles::Mutate<_>>::mint_into(id.clone(), who, *amount).expect("genesis asset account");
			}
			if let Some(n) = &self.next_asset_id {
				NextAssetId::<T, I>::put(n);
			}
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Account::<T, I>::get(id, who.borrow()).map_or_else(Zero::zero, |a| a.balance)
	}
	pub fn maybe_balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> Option<T::Balance> {
		Account::<T, I>::get(id, who.borrow()).map(|a| a.balance)
	}
	pub fn account_balances(who: T::AccountId) -> Vec<(T::AssetId, T::Balance)> {
		Asset::<T, I>::iter_keys().filter_map(|id| Self::maybe_balance(id.clone(), &who).map(|b| (id, b))).collect()
	}
	pub fn total_supply(id: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(id).map_or_else(Zero::zero, |d| d.supply)
	}
	pub fn asset_exists(id: T::AssetId) -> bool {
		Asset::<T, I>::contains_key(id)
	}
	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, increase_supply: bool) -> DepositConsequence {
		let Some(d) = Asset::<T, I>::get(&id) else { return DepositConsequence::UnknownAsset };
		if d.status == AssetStatus::Destroying {
			return DepositConsequence::UnknownAsset;
		}
		if increase_supply && d.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if let Some(a) = Account::<T, I>::get(id, who) {
			if a.status == AccountStatus::Blocked {
				return DepositConsequence::Blocked;
			}
			if a.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
		} else {
			if amount < d.min_balance {
				return DepositConsequence::BelowMinimum;
			}
			if !d.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate;
			}
			if d.is_sufficient && d.sufficients.checked_add(1).is_none() {
				return DepositConsequence::Overflow;
			}
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool) -> WithdrawConsequence<T::Balance> {
		let Some(d) = Asset::<T, I>::get(&id) else { return WithdrawConsequence::UnknownAsset };
		if d.supply.checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		if d.status == AssetStatus::Frozen {
			return WithdrawConsequence::Frozen;
		}
		if d.status == AssetStatus::Destroying {
			return WithdrawConsequence::UnknownAsset;
		}
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		let Some(a) = Account::<T, I>::get(&id, who) else { return WithdrawConsequence::BalanceLow };
		if a.status != AccountStatus::Liquid {
			return WithdrawConsequence::Frozen;
		}
		let Some(rest) = a.balance.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			match frozen.checked_add(&d.min_balance) {
				Some(required) if rest < required => return WithdrawConsequence::Frozen,
				None => return WithdrawConsequence::Overflow,
				_ => {}
			}
		}
		if rest < d.min_balance {
			if keep_alive {
				WithdrawConsequence::WouldDie
			} else {
				WithdrawConsequence::ReducedToZero(rest)
			}
		} else {
			WithdrawConsequence::Success
		}
	}
	fn reducible(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let d = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		frame_support::ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let a = Account::<T, I>::get(&id, who).ok_or(Error::<T, I>::NoAccount)?;
		frame_support::ensure!(a.status == AccountStatus::Liquid, Error::<T, I>::Frozen);
		let amount = if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			let required = frozen.checked_add(&d.min_balance).ok_or(ArithmeticError::Overflow)?;
			a.balance.saturating_sub(required)
		} else if keep_alive {
			a.balance.saturating_sub(d.min_balance)
		} else {
			a.balance
		};
		Ok(amount.min(d.supply))
	}
	fn do_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool, best_effort: bool) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let actual = Self::reducible(id.clone(), who, keep_alive)?.min(amount);
		frame_support::ensure!(best_effort || actual >= amount, Error::<T, I>::BalanceLow);
		let dust = Self::can_decrease(id.clone(), who, actual, keep_alive).into_result(keep_alive)?;
		let actual = actual.saturating_add(dust);
		let mut died = false;
		Asset::<T, I>::try_mutate(&id, |d| -> DispatchResult {
			let d = d.as_mut().ok_or(Error::<T, I>::Unknown)?;
			Account::<T, I>::try_mutate(&id, who, |slot| -> DispatchResult {
				let mut a = slot.take().ok_or(Error::<T, I>::NoAccount)?;
				a.balance = a.balance.saturating_sub(actual);
				if a.balance < d.min_balance {
					match a.reason {
						ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
						ExistenceReason::Sufficient => {
							d.sufficients = d.sufficients.saturating_sub(1);
							frame_system::Pallet::<T>::dec_sufficients(who);
						}
					}
					d.accounts = d.accounts.saturating_sub(1);
					died = true;
					return Ok(());
				}
				*slot = Some(a);
				Ok(())
			})
		})?;
		if died {
			T::Freezer::died(id, who);
		}
		Ok(actual)
	}
	fn do_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id.clone(), who, amount, true).into_result()?;
		Asset::<T, I>::try_mutate(&id, |d| -> DispatchResult {
			let d = d.as_mut().ok_or(Error::<T, I>::Unknown)?;
			Account::<T, I>::try_mutate(&id, who, |slot| -> DispatchResult {
				match slot {
					Some(a) => a.balance = a.balance.saturating_add(amount),
					slot @ None => {
						frame_support::ensure!(amount >= d.min_balance, TokenError::BelowMinimum);
						let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
						let reason = if d.is_sufficient {
							frame_system::Pallet::<T>::inc_sufficients(who);
							d.sufficients += 1;
							ExistenceReason::Sufficient
						} else {
							frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T, I>::UnavailableConsumer)?;
							if !frame_system::Pallet::<T>::can_inc_consumer(who) {
								frame_system::Pallet::<T>::dec_consumers(who);
								return Err(Error::<T, I>::UnavailableConsumer.into());
							}
							ExistenceReason::Consumer
						};
						d.accounts = accounts;
						*slot = Some(AssetAccount { balance: amount, status: AccountStatus::Liquid, reason });
					}
				}
				Ok(())
			})
		})
	}
}

impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		Self::total_supply(asset)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map_or_else(Zero::zero, |d| d.min_balance)
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		let held = Holds::<T, I>::get(&asset, who).iter().fold(T::Balance::zero(), |a, x| a.saturating_add(x.1));
		Pallet::<T, I>::balance(asset, who).saturating_add(held)
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Pallet::<T, I>::balance(asset, who)
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, preservation: Preservation, _: Fortitude) -> T::Balance {
		Self::reducible(asset, who, !matches!(preservation, Preservation::Expendable)).unwrap_or_else(|_| Zero::zero())
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, provenance == Provenance::Minted)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		Asset::<T, I>::contains_key(asset)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_raw_dust(_: T::AssetId, _: T::Balance) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {
		debug_assert!(false, "`decrease_balance` and `increase_balance` have non-default impls; nothing else calls this; qed");
	}
	fn write_balance(_: T::AssetId, _: &T::AccountId, _: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		debug_assert!(false, "write_balance is not used if other functions are impl'd");
		Err(DispatchError::Unavailable)
	}
	fn set_total_issuance(id: T::AssetId, amount: T::Balance) {
		Asset::<T, I>::mutate_exists(id, |d| {
			if let Some(d) = d {
				d.supply = amount
			}
		})
	}
	fn decrease_balance(
		asset: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		precision: Precision,
		preservation: Preservation,
		_: Fortitude,
	) -> Result<T::Balance, DispatchError> {
		Self::do_decrease(asset, who, amount, preservation != Preservation::Expendable, precision == Precision::BestEffort)
	}
	fn increase_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, _: Precision) -> Result<T::Balance, DispatchError> {
		Self::do_increase(asset, who, amount)?;
		Ok(amount)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_mint_into(asset_id: T::AssetId, who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount })
	}
	fn done_burn_from(asset_id: T::AssetId, who: &T::AccountId, balance: T::Balance) {
		Self::deposit_event(Event::Burned { asset_id, owner: who.clone(), balance })
	}
	fn done_transfer(asset_id: T::AssetId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transferred { asset_id, from: from.clone(), to: to.clone(), amount })
	}
}
impl<T: Config<I>, I: 'static> fungibles::Balanced<T::AccountId> for Pallet<T, I> {
	type OnDropCredit = ();
	type OnDropDebt = ();
}
impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		Self::do_force_create(id, admin, is_sufficient, min_balance)
	}
}
impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
	fn owner(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.owner)
	}
	fn issuer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.issuer)
	}
	fn admin(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.admin)
	}
	fn freezer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|d| d.freezer)
	}
}
impl<T: Config<I>, I: 'static> fungibles::InspectHold<T::AccountId> for Pallet<T, I> {
	type Reason = T::RuntimeHoldReason;
	fn total_balance_on_hold(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(asset, who).iter().fold(Zero::zero(), |a: T::Balance, x| a.saturating_add(x.1))
	}
	fn balance_on_hold(asset: T::AssetId, reason: &Self::Reason, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(asset, who).iter().find(|x| &x.0 == reason).map_or_else(Zero::zero, |x| x.1)
	}
}
impl<T: Config<I>, I: 'static> fungibles::UnbalancedHold<T::AccountId> for Pallet<T, I> {
	fn set_balance_on_hold(asset: T::AssetId, reason: &Self::Reason, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let mut h = Holds::<T, I>::get(&asset, who);
		if let Some(x) = h.iter_mut().find(|x| &x.0 == reason) {
			x.1 = amount;
		} else {
			frame_support::ensure!((h.len() as u32) < T::RuntimeHoldReason::VARIANT_COUNT, Error::<T, I>::TooManyHolds);
			h.push((*reason, amount));
		}
		h.retain(|x| !x.1.is_zero());
		if h.is_empty() {
			Holds::<T, I>::remove(&asset, who);
		} else {
			Holds::<T, I>::insert(&asset, who, h);
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungibles::MutateHold<T::AccountId> for Pallet<T, I> {}
