//! Collections of unique items.
use parity_scale_codec::{Decode, Encode};
use shim_base::runtime::{DispatchError, DispatchResult};
use shim_base::traits::Parameter;

pub trait Inspect<AccountId> {
	type ItemId: Parameter;
	type CollectionId: Parameter;
	fn owner(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<AccountId>;
	fn collection_owner(_c: &Self::CollectionId) -> Option<AccountId> {
		None
	}
	fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn custom_attribute(_a: &AccountId, _c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn system_attribute(_c: &Self::CollectionId, _i: Option<&Self::ItemId>, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn typed_attribute<K: Encode, V: Decode>(c: &Self::CollectionId, i: &Self::ItemId, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::attribute(c, i, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn typed_system_attribute<K: Encode, V: Decode>(c: &Self::CollectionId, i: Option<&Self::ItemId>, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::system_attribute(c, i, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn collection_attribute(_c: &Self::CollectionId, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn typed_collection_attribute<K: Encode, V: Decode>(c: &Self::CollectionId, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::collection_attribute(c, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool {
		true
	}
}
pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {
	type CollectionsIterator: Iterator<Item = Self::CollectionId>;
	type ItemsIterator: Iterator<Item = Self::ItemId>;
	type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>;
	type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
	fn collections() -> Self::CollectionsIterator;
	fn items(collection: &Self::CollectionId) -> Self::ItemsIterator;
	fn owned(who: &AccountId) -> Self::OwnedIterator;
	fn owned_in_collection(collection: &Self::CollectionId, who: &AccountId) -> Self::OwnedInCollectionIterator;
}
pub trait InspectRole<AccountId>: Inspect<AccountId> {}
pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
	fn create_collection(who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<Self::CollectionId, DispatchError>;
	fn create_collection_with_id(collection: Self::CollectionId, who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<(), DispatchError>;
}
pub trait Destroy<AccountId>: Inspect<AccountId> {}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(_c: &Self::CollectionId, _i: &Self::ItemId, _who: &AccountId, _config: &ItemConfig, _deposit_collection_owner: bool) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _maybe_check_owner: Option<&AccountId>) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_typed_attribute<K: Encode, V: Encode>(c: &Self::CollectionId, i: &Self::ItemId, key: &K, value: &V) -> DispatchResult {
		key.using_encoded(|k| value.using_encoded(|v| Self::set_attribute(c, i, k, v)))
	}
	fn set_collection_attribute(_c: &Self::CollectionId, _k: &[u8], _v: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_typed_collection_attribute<K: Encode, V: Encode>(c: &Self::CollectionId, key: &K, value: &V) -> DispatchResult {
		key.using_encoded(|k| value.using_encoded(|v| Self::set_collection_attribute(c, k, v)))
	}
	fn set_item_metadata(_who: Option<&AccountId>, _c: &Self::CollectionId, _i: &Self::ItemId, _d: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_collection_metadata(_who: Option<&AccountId>, _c: &Self::CollectionId, _d: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn clear_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn clear_typed_attribute<K: Encode>(c: &Self::CollectionId, i: &Self::ItemId, key: &K) -> DispatchResult {
		key.using_encoded(|k| Self::clear_attribute(c, i, k))
	}
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
	fn transfer(collection: &Self::CollectionId, item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
	fn disable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn enable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
}
pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
	fn buy_item(collection: &Self::CollectionId, item: &Self::ItemId, buyer: &AccountId, bid_price: &ItemPrice) -> DispatchResult;
	fn set_price(
		collection: &Self::CollectionId,
		item: &Self::ItemId,
		sender: &AccountId,
		price: Option<ItemPrice>,
		whitelisted_buyer: Option<AccountId>,
	) -> DispatchResult;
	fn item_price(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<ItemPrice>;
}
