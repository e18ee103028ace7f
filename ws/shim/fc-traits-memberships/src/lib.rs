//! Groups of members. A membership is an item: unassigned ones sit in some managing collection and belong to
//! the owner of the group's collection; assigning moves the item to the group's collection under its holder,
//! releasing moves it back.
use frame_support::traits::nonfungibles_v2::{Inspect as NfInspect, InspectEnumerable, Mutate as NfMutate};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::runtime::DispatchError;
use std::num::NonZeroU8;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct GenericRank(u8);
impl GenericRank {
	pub const MIN: Self = GenericRank(u8::MIN);
	pub const MAX: Self = GenericRank(u8::MAX);
	pub const ADMIN: Self = Self::MAX;
	pub fn set(&mut self, n: u8) {
		self.0 = n
	}
	pub fn promote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_add(n.get()))
	}
	pub fn demote_by(self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_sub(n.get()))
	}
}
impl From<u8> for GenericRank {
	fn from(n: u8) -> Self {
		GenericRank(n)
	}
}
impl From<GenericRank> for u8 {
	fn from(r: GenericRank) -> u8 {
		r.0
	}
}
impl From<GenericRank> for u32 {
	fn from(r: GenericRank) -> u32 {
		r.0 as u32
	}
}

pub trait Inspect<AccountId> {
	type Group;
	type Membership;
	fn user_memberships(who: &AccountId, maybe_group: Option<Self::Group>) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
	fn is_member_of(group: &Self::Group, who: &AccountId) -> bool;
	fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
	fn members_total(group: &Self::Group) -> u32;
}
pub trait Manager<AccountId, ImplConfig>: Inspect<AccountId> {
	fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> Result<(), DispatchError>;
	fn release(group: &Self::Group, m: &Self::Membership) -> Result<(), DispatchError>;
}
pub trait Rank<AccountId, ImplConfig, R = GenericRank>: Inspect<AccountId> {
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<R>;
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<R>) -> Result<(), DispatchError>;
	fn ranks_total(group: &Self::Group) -> u32;
}

const HOME: &[u8] = b"membership_home";
const RANK: &[u8] = b"membership_member_rank";

use pallet_nfts::{Config, ItemConfig, Pallet};
impl<T: Config<I>, I: 'static> Inspect<T::AccountId> for Pallet<T, I> {
	type Group = T::CollectionId;
	type Membership = T::ItemId;
	fn user_memberships(who: &T::AccountId, group: Option<T::CollectionId>) -> Box<dyn Iterator<Item = (T::CollectionId, T::ItemId)>> {
		match group {
			Some(g) => Box::new(Self::owned_in_collection(&g, who).map(move |m| (g, m))),
			None => Box::new(Self::owned(who)),
		}
	}
	fn is_member_of(group: &T::CollectionId, who: &T::AccountId) -> bool {
		Self::owned_in_collection(group, who).next().is_some()
	}
	fn check_membership(who: &T::AccountId, m: &T::ItemId) -> Option<T::CollectionId> {
		Self::owned(who).find(|x| &x.1 == m).map(|x| x.0)
	}
	fn members_total(group: &T::CollectionId) -> u32 {
		Self::items(group).count() as u32
	}
}
impl<T: Config<I>, I: 'static> Manager<T::AccountId, ItemConfig> for Pallet<T, I> {
	fn assign(group: &T::CollectionId, m: &T::ItemId, who: &T::AccountId) -> Result<(), DispatchError> {
		let owner = <Self as NfInspect<_>>::collection_owner(group).ok_or(DispatchError::Other("no group"))?;
		let home = Self::owned(&owner).find(|x| &x.1 == m && &x.0 != group).ok_or(DispatchError::Other("no such membership"))?.0;
		<Self as NfMutate<_, _>>::burn(&home, m, Some(&owner))?;
		<Self as NfMutate<_, ItemConfig>>::mint_into(group, m, who, &Default::default(), true)?;
		<Self as NfMutate<_, _>>::set_attribute(group, m, HOME, &home.encode())?;
		<Self as NfMutate<_, _>>::set_attribute(group, m, RANK, &GenericRank::default().encode())
	}
	fn release(group: &T::CollectionId, m: &T::ItemId) -> Result<(), DispatchError> {
		let owner = <Self as NfInspect<_>>::collection_owner(group).ok_or(DispatchError::Other("no group"))?;
		let home = <Self as NfInspect<_>>::attribute(group, m, HOME).ok_or(DispatchError::Other("no such membership"))?;
		let home = T::CollectionId::decode(&mut &home[..]).map_err(|_| DispatchError::Corruption)?;
		<Self as NfMutate<_, _>>::burn(group, m, None)?;
		<Self as NfMutate<_, ItemConfig>>::mint_into(&home, m, &owner, &Default::default(), true)
	}
}
impl<T: Config<I>, I: 'static> Rank<T::AccountId, ItemConfig> for Pallet<T, I> {
	fn rank_of(group: &T::CollectionId, m: &T::ItemId) -> Option<GenericRank> {
		<Self as NfInspect<_>>::attribute(group, m, RANK).and_then(|b| GenericRank::decode(&mut &b[..]).ok())
	}
	fn set_rank(group: &T::CollectionId, m: &T::ItemId, rank: impl Into<GenericRank>) -> Result<(), DispatchError> {
		<Self as NfInspect<_>>::owner(group, m).ok_or(DispatchError::Other("no such membership"))?;
		<Self as NfMutate<_, _>>::set_attribute(group, m, RANK, &rank.into().encode())
	}
	fn ranks_total(group: &T::CollectionId) -> u32 {
		Self::items(group).filter_map(|m| <Self as Rank<_, ItemConfig>>::rank_of(group, &m)).map(u32::from).sum()
	}
}
