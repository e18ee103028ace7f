//! Collections of unique items: creation, minting, burning, transfers, attributes and prices. Deposits are
//! not taken (the runtimes under test configure none for collections and items).
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::marker::PhantomData;

pub use frame_support::instances::*;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
#[cfg(feature = "runtime-benchmarks")]
pub trait BenchmarkHelper<C, I, P, A, S> {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct ItemSettings(pub u64);
impl ItemSettings {
	pub fn all_enabled() -> Self {
		Self::default()
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct ItemConfig {
	pub settings: ItemSettings,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct CollectionSettings(pub u64);
impl CollectionSettings {
	pub fn all_enabled() -> Self {
		Self::default()
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum MintType<CollectionId> {
	#[default]
	Issuer,
	Public,
	HolderOf(CollectionId),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
	pub mint_type: MintType<CollectionId>,
	pub price: Option<Price>,
	pub start_block: Option<BlockNumber>,
	pub end_block: Option<BlockNumber>,
	pub default_item_settings: ItemSettings,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
	fn default() -> Self {
		Self { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: Default::default() }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
	pub settings: CollectionSettings,
	pub max_supply: Option<u32>,
	pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}
impl<P, B, C> Default for CollectionConfig<P, B, C> {
	fn default() -> Self {
		Self { settings: Default::default(), max_supply: None, mint_settings: Default::default() }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct PalletFeatures(pub u64);
impl PalletFeatures {
	pub fn all_enabled() -> Self {
		Self::default()
	}
	pub fn from_disabled(f: u64) -> Self {
		PalletFeatures(f)
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{nonfungibles_v2 as nf, Currency, EnsureOriginWithArg, ExistenceRequirement, Incrementable};
	use frame_system::pallet_prelude::*;
	use shim_base::traits::StaticLookup;

	pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
	pub type CollectionConfigFor<T, I = ()> = CollectionConfig<BalanceOf<T, I>, BlockNumberFor<T>, <T as Config<I>>::CollectionId>;
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type CollectionId: Parameter + Member + MaxEncodedLen + Copy + Incrementable + Ord;
		type ItemId: Parameter + Member + MaxEncodedLen + Copy + Ord;
		type Currency: Currency<Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
		type Locker;
		type CollectionDeposit;
		type ItemDeposit;
		type MetadataDepositBase;
		type AttributeDepositBase;
		type DepositPerByte;
		type StringLimit;
		type KeyLimit: Get<u32>;
		type ValueLimit: Get<u32>;
		type ApprovalsLimit;
		type ItemAttributesApprovalsLimit;
		type MaxTips;
		type MaxDeadlineDuration;
		type MaxAttributesPerCall;
		type Features;
		type OffchainSignature;
		type OffchainPublic;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	/// (owner, admin, configuration)
	#[pallet::storage]
	pub type Collection<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::CollectionId, (T::AccountId, T::AccountId, CollectionConfigFor<T, I>)>;
	#[pallet::storage]
	pub type Item<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, T::AccountId>;
	#[pallet::storage]
	pub type ItemPriceOf<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, (BalanceOf<T, I>, Option<T::AccountId>)>;
	#[pallet::storage]
	pub type Attribute<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, (T::CollectionId, Option<T::ItemId>, Vec<u8>), Vec<u8>>;
	#[pallet::storage]
	pub type NextCollectionId<T: Config<I>, I: 'static = ()> = StorageValue<_, T::CollectionId>;

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { collection: T::CollectionId, creator: T::AccountId, owner: T::AccountId },
		ForceCreated { collection: T::CollectionId, owner: T::AccountId },
		Issued { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		Transferred { collection: T::CollectionId, item: T::ItemId, from: T::AccountId, to: T::AccountId },
		Burned { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		ItemPriceSet { collection: T::CollectionId, item: T::ItemId, price: BalanceOf<T, I>, whitelisted_buyer: Option<T::AccountId> },
		ItemPriceRemoved { collection: T::CollectionId, item: T::ItemId },
		ItemBought { collection: T::CollectionId, item: T::ItemId, price: BalanceOf<T, I>, seller: T::AccountId, buyer: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NoPermission,
		UnknownCollection,
		AlreadyExists,
		CollectionIdInUse,
		UnknownItem,
		NotForSale,
		BidTooLow,
		MaxSupplyReached,
		IncorrectData,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn create(origin: OriginFor<T>, admin: LookupOf<T>, config: CollectionConfigFor<T, I>) -> DispatchResult {
			let id = NextCollectionId::<T, I>::get().or_else(T::CollectionId::initial_value).ok_or(Error::<T, I>::UnknownCollection)?;
			let owner = <T::CreateOrigin as EnsureOriginWithArg<_, _>>::ensure_origin(origin, &id)?;
			let admin = T::Lookup::lookup(admin)?;
			Self::do_create_collection(id, owner.clone(), admin, config, 0u8.into(), Event::Created { collection: id, creator: owner.clone(), owner })?;
			Self::bump(id);
			Ok(())
		}
		#[pallet::call_index(1)]
		pub fn force_create(origin: OriginFor<T>, owner: LookupOf<T>, config: CollectionConfigFor<T, I>) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			let id = NextCollectionId::<T, I>::get().or_else(T::CollectionId::initial_value).ok_or(Error::<T, I>::UnknownCollection)?;
			Self::do_create_collection(id, owner.clone(), owner.clone(), config, 0u8.into(), Event::ForceCreated { collection: id, owner })?;
			Self::bump(id);
			Ok(())
		}
		#[pallet::call_index(3)]
		pub fn mint(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, mint_to: LookupOf<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let to = T::Lookup::lookup(mint_to)?;
			let c = Collection::<T, I>::get(collection).ok_or(Error::<T, I>::UnknownCollection)?;
			ensure!(c.0 == who || c.1 == who, Error::<T, I>::NoPermission);
			Self::do_mint(collection, item, to)
		}
		#[pallet::call_index(5)]
		pub fn burn(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let owner = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
			ensure!(owner == who, Error::<T, I>::NoPermission);
			Self::do_burn(collection, item)
		}
		#[pallet::call_index(6)]
		pub fn transfer(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, dest: LookupOf<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			let owner = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
			ensure!(owner == who, Error::<T, I>::NoPermission);
			Self::do_transfer(collection, item, dest)
		}
		#[pallet::call_index(33)]
		pub fn buy_item(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId, bid_price: BalanceOf<T, I>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			<Self as nf::Trading<_, _>>::buy_item(&collection, &item, &who, &bid_price)
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		fn bump(id: T::CollectionId) {
			if let Some(n) = id.increment() {
				NextCollectionId::<T, I>::put(n);
			}
		}
		pub fn do_create_collection(
			collection: T::CollectionId,
			owner: T::AccountId,
			admin: T::AccountId,
			config: CollectionConfigFor<T, I>,
			_deposit: BalanceOf<T, I>,
			event: Event<T, I>,
		) -> DispatchResult {
			ensure!(!Collection::<T, I>::contains_key(collection), Error::<T, I>::CollectionIdInUse);
			Collection::<T, I>::insert(collection, (owner, admin, config));
			Self::deposit_event(event);
			Ok(())
		}
		fn do_mint(collection: T::CollectionId, item: T::ItemId, to: T::AccountId) -> DispatchResult {
			ensure!(!Item::<T, I>::contains_key(collection, item), Error::<T, I>::AlreadyExists);
			let c = Collection::<T, I>::get(collection).ok_or(Error::<T, I>::UnknownCollection)?;
			if let Some(m) = c.2.max_supply {
				ensure!((Item::<T, I>::iter_prefix(collection).count() as u32) < m, Error::<T, I>::MaxSupplyReached);
			}
			Item::<T, I>::insert(collection, item, to.clone());
			Self::deposit_event(Event::Issued { collection, item, owner: to });
			Ok(())
		}
		fn do_burn(collection: T::CollectionId, item: T::ItemId) -> DispatchResult {
			let owner = Item::<T, I>::take(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
			ItemPriceOf::<T, I>::remove(collection, item);
			for (k, _) in Attribute::<T, I>::iter().filter(|(k, _)| k.0 == collection && k.1 == Some(item)).collect::<Vec<_>>() {
				Attribute::<T, I>::remove(k);
			}
			Self::deposit_event(Event::Burned { collection, item, owner });
			Ok(())
		}
		fn do_transfer(collection: T::CollectionId, item: T::ItemId, to: T::AccountId) -> DispatchResult {
			let from = Item::<T, I>::get(collection, item).ok_or(Error::<T, I>::UnknownItem)?;
			Item::<T, I>::insert(collection, item, to.clone());
			ItemPriceOf::<T, I>::remove(collection, item);
			Self::deposit_event(Event::Transferred { collection, item, from, to });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> nf::Inspect<T::AccountId> for Pallet<T, I> {
		type ItemId = T::ItemId;
		type CollectionId = T::CollectionId;
		fn owner(c: &T::CollectionId, i: &T::ItemId) -> Option<T::AccountId> {
			Item::<T, I>::get(c, i)
		}
		fn collection_owner(c: &T::CollectionId) -> Option<T::AccountId> {
			Collection::<T, I>::get(c).map(|c| c.0)
		}
		fn attribute(c: &T::CollectionId, i: &T::ItemId, k: &[u8]) -> Option<Vec<u8>> {
			Attribute::<T, I>::get((*c, Some(*i), k.to_vec()))
		}
		fn system_attribute(c: &T::CollectionId, i: Option<&T::ItemId>, k: &[u8]) -> Option<Vec<u8>> {
			Attribute::<T, I>::get((*c, i.copied(), k.to_vec()))
		}
		fn collection_attribute(c: &T::CollectionId, k: &[u8]) -> Option<Vec<u8>> {
			Attribute::<T, I>::get((*c, None::<T::ItemId>, k.to_vec()))
		}
	}
	impl<T: Config<I>, I: 'static> nf::InspectEnumerable<T::AccountId> for Pallet<T, I> {
		type CollectionsIterator = std::vec::IntoIter<T::CollectionId>;
		type ItemsIterator = std::vec::IntoIter<T::ItemId>;
		type OwnedIterator = std::vec::IntoIter<(T::CollectionId, T::ItemId)>;
		type OwnedInCollectionIterator = std::vec::IntoIter<T::ItemId>;
		fn collections() -> Self::CollectionsIterator {
			Collection::<T, I>::iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		fn items(c: &T::CollectionId) -> Self::ItemsIterator {
			Item::<T, I>::iter_prefix(c).map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		fn owned(who: &T::AccountId) -> Self::OwnedIterator {
			Item::<T, I>::iter().filter(|x| &x.2 == who).map(|x| (x.0, x.1)).collect::<Vec<_>>().into_iter()
		}
		fn owned_in_collection(c: &T::CollectionId, who: &T::AccountId) -> Self::OwnedInCollectionIterator {
			Item::<T, I>::iter_prefix(c).filter(|x| &x.1 == who).map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
	}
	impl<T: Config<I>, I: 'static> nf::Create<T::AccountId, CollectionConfigFor<T, I>> for Pallet<T, I> {
		fn create_collection(who: &T::AccountId, admin: &T::AccountId, config: &CollectionConfigFor<T, I>) -> Result<T::CollectionId, DispatchError> {
			let id = NextCollectionId::<T, I>::get().or_else(T::CollectionId::initial_value).ok_or(Error::<T, I>::UnknownCollection)?;
			Self::create_collection_with_id(id, who, admin, config)?;
			Self::bump(id);
			Ok(id)
		}
		fn create_collection_with_id(
			id: T::CollectionId,
			who: &T::AccountId,
			admin: &T::AccountId,
			config: &CollectionConfigFor<T, I>,
		) -> Result<(), DispatchError> {
			Self::do_create_collection(
				id,
				who.clone(),
				admin.clone(),
				*config,
				0u8.into(),
				Event::Created { collection: id, creator: who.clone(), owner: admin.clone() },
			)
		}
	}
	impl<T: Config<I>, I: 'static> nf::Mutate<T::AccountId, ItemConfig> for Pallet<T, I> {
		fn mint_into(c: &T::CollectionId, i: &T::ItemId, who: &T::AccountId, _: &ItemConfig, _: bool) -> DispatchResult {
			Self::do_mint(*c, *i, who.clone())
		}
		fn burn(c: &T::CollectionId, i: &T::ItemId, check: Option<&T::AccountId>) -> DispatchResult {
			if let Some(o) = check {
				ensure!(Item::<T, I>::get(c, i).as_ref() == Some(o), Error::<T, I>::NoPermission);
			}
			Self::do_burn(*c, *i)
		}
		fn set_attribute(c: &T::CollectionId, i: &T::ItemId, k: &[u8], v: &[u8]) -> DispatchResult {
			ensure!(k.len() as u32 <= T::KeyLimit::get() && v.len() as u32 <= T::ValueLimit::get(), Error::<T, I>::IncorrectData);
			Attribute::<T, I>::insert((*c, Some(*i), k.to_vec()), v.to_vec());
			Ok(())
		}
		fn set_collection_attribute(c: &T::CollectionId, k: &[u8], v: &[u8]) -> DispatchResult {
			ensure!(k.len() as u32 <= T::KeyLimit::get() && v.len() as u32 <= T::ValueLimit::get(), Error::<T, I>::IncorrectData);
			Attribute::<T, I>::insert((*c, None::<T::ItemId>, k.to_vec()), v.to_vec());
			Ok(())
		}
		fn clear_attribute(c: &T::CollectionId, i: &T::ItemId, k: &[u8]) -> DispatchResult {
			Attribute::<T, I>::remove((*c, Some(*i), k.to_vec()));
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> nf::Transfer<T::AccountId> for Pallet<T, I> {
		fn transfer(c: &T::CollectionId, i: &T::ItemId, d: &T::AccountId) -> DispatchResult {
			Self::do_transfer(*c, *i, d.clone())
		}
	}
	impl<T: Config<I>, I: 'static> nf::Trading<T::AccountId, BalanceOf<T, I>> for Pallet<T, I> {
		fn buy_item(c: &T::CollectionId, i: &T::ItemId, buyer: &T::AccountId, bid: &BalanceOf<T, I>) -> DispatchResult {
			let owner = Item::<T, I>::get(c, i).ok_or(Error::<T, I>::UnknownItem)?;
			ensure!(&owner != buyer, Error::<T, I>::NoPermission);
			let (price, only) = ItemPriceOf::<T, I>::get(c, i).ok_or(Error::<T, I>::NotForSale)?;
			ensure!(*bid >= price, Error::<T, I>::BidTooLow);
			ensure!(only.map_or(true, |o| &o == buyer), Error::<T, I>::NoPermission);
			T::Currency::transfer(buyer, &owner, price, ExistenceRequirement::KeepAlive)?;
			Self::do_transfer(*c, *i, buyer.clone())?;
			Self::deposit_event(Event::ItemBought { collection: *c, item: *i, price, seller: owner, buyer: buyer.clone() });
			Ok(())
		}
		fn set_price(
			c: &T::CollectionId,
			i: &T::ItemId,
			sender: &T::AccountId,
			price: Option<BalanceOf<T, I>>,
			whitelisted_buyer: Option<T::AccountId>,
		) -> DispatchResult {
			let owner = Item::<T, I>::get(c, i).ok_or(Error::<T, I>::UnknownItem)?;
			ensure!(&owner == sender, Error::<T, I>::NoPermission);
			match price {
				Some(price) => {
					ItemPriceOf::<T, I>::insert(c, i, (price, whitelisted_buyer.clone()));
					Self::deposit_event(Event::ItemPriceSet { collection: *c, item: *i, price, whitelisted_buyer });
				}
				None => {
					ItemPriceOf::<T, I>::remove(c, i);
					Self::deposit_event(Event::ItemPriceRemoved { collection: *c, item: *i });
				}
			}
			Ok(())
		}
		fn item_price(c: &T::CollectionId, i: &T::ItemId) -> Option<BalanceOf<T, I>> {
			ItemPriceOf::<T, I>::get(c, i).map(|x| x.0)
		}
	}
}
