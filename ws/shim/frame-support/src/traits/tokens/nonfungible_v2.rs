//! Items of one collection.
use super::nonfungibles_v2 as nonfungibles;
use parity_scale_codec::{Decode, Encode};
use shim_base::runtime::DispatchResult;
use shim_base::traits::{Get, Parameter};
use std::marker::PhantomData;

pub trait Inspect<AccountId> {
	type ItemId: Parameter;
	fn owner(item: &Self::ItemId) -> Option<AccountId>;
	fn attribute(_i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn typed_attribute<K: Encode, V: Decode>(i: &Self::ItemId, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::attribute(i, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn system_attribute(_i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn typed_system_attribute<K: Encode, V: Decode>(i: &Self::ItemId, key: &K) -> Option<V> {
		key.using_encoded(|d| Self::system_attribute(i, d)).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn can_transfer(_i: &Self::ItemId) -> bool {
		true
	}
}
pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(_i: &Self::ItemId, _who: &AccountId, _config: &ItemConfig, _deposit_collection_owner: bool) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn burn(_i: &Self::ItemId, _maybe_check_owner: Option<&AccountId>) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_attribute(_i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult {
		Err(shim_base::runtime::TokenError::Unsupported.into())
	}
	fn set_typed_attribute<K: Encode, V: Encode>(i: &Self::ItemId, key: &K, value: &V) -> DispatchResult {
		key.using_encoded(|k| value.using_encoded(|v| Self::set_attribute(i, k, v)))
	}
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
	fn transfer(item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
}
pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
impl<F: nonfungibles::Inspect<X>, A: Get<F::CollectionId>, X> Inspect<X> for ItemOf<F, A, X> {
	type ItemId = F::ItemId;
	fn owner(i: &F::ItemId) -> Option<X> {
		F::owner(&A::get(), i)
	}
	fn attribute(i: &F::ItemId, k: &[u8]) -> Option<Vec<u8>> {
		F::attribute(&A::get(), i, k)
	}
	fn system_attribute(i: &F::ItemId, k: &[u8]) -> Option<Vec<u8>> {
		F::system_attribute(&A::get(), Some(i), k)
	}
	fn can_transfer(i: &F::ItemId) -> bool {
		F::can_transfer(&A::get(), i)
	}
}
impl<F: nonfungibles::Mutate<X, C>, A: Get<F::CollectionId>, X, C> Mutate<X, C> for ItemOf<F, A, X> {
	fn mint_into(i: &F::ItemId, who: &X, c: &C, d: bool) -> DispatchResult {
		F::mint_into(&A::get(), i, who, c, d)
	}
	fn burn(i: &F::ItemId, o: Option<&X>) -> DispatchResult {
		F::burn(&A::get(), i, o)
	}
	fn set_attribute(i: &F::ItemId, k: &[u8], v: &[u8]) -> DispatchResult {
		F::set_attribute(&A::get(), i, k, v)
	}
}
impl<F: nonfungibles::Transfer<X>, A: Get<F::CollectionId>, X> Transfer<X> for ItemOf<F, A, X> {
	fn transfer(i: &F::ItemId, d: &X) -> DispatchResult {
		F::transfer(&A::get(), i, d)
	}
}
