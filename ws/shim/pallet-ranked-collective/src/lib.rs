//! A collective whose members have ranks and vote with weight by rank.
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::Perbill;
use shim_base::traits::Convert;
use std::marker::PhantomData;

pub use frame_support::instances::*;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
pub type Rank = u16;
pub type Votes = u32;
pub type MemberIndex = u32;
pub type TallyOf<T, I = ()> = Tally<T, I, Pallet<T, I>>;

#[derive(Encode, Decode, MaxEncodedLen)]
#[codec(encode_bound())]
#[codec(decode_bound())]
#[codec(mel_bound())]
pub struct Tally<T, I, M> {
	pub bare_ayes: MemberIndex,
	pub ayes: Votes,
	pub nays: Votes,
	pub dummy: PhantomData<(T, I, M)>,
}
impl<T, I, M> Clone for Tally<T, I, M> {
	fn clone(&self) -> Self {
		Self { dummy: PhantomData, ..*self }
	}
}
impl<T, I, M> PartialEq for Tally<T, I, M> {
	fn eq(&self, o: &Self) -> bool {
		(self.bare_ayes, self.ayes, self.nays) == (o.bare_ayes, o.ayes, o.nays)
	}
}
impl<T, I, M> Eq for Tally<T, I, M> {}
impl<T, I, M> std::fmt::Debug for Tally<T, I, M> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Tally {{ bare_ayes: {}, ayes: {}, nays: {} }}", self.bare_ayes, self.ayes, self.nays)
	}
}
impl<T: 'static, I: 'static, M: 'static> TypeInfo for Tally<T, I, M> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		scale_info::TypeDefPrimitive::U32.into()
	}
}
/// Weight of a vote by the excess of rank.
pub struct Unit;
impl Convert<Rank, Votes> for Unit {
	fn convert(_: Rank) -> Votes {
		1
	}
}
pub struct Linear;
impl Convert<Rank, Votes> for Linear {
	fn convert(r: Rank) -> Votes {
		(r + 1) as Votes
	}
}
pub struct Geometric;
impl Convert<Rank, Votes> for Geometric {
	fn convert(r: Rank) -> Votes {
		let v = (r + 1) as Votes;
		v * (v + 1) / 2
	}
}
impl<T: Config<I>, I: 'static> frame_support::traits::VoteTally<Votes, <T::Polls as frame_support::traits::Polling<TallyOf<T, I>>>::Class>
	for Tally<T, I, Pallet<T, I>>
{
	fn new(_: <T::Polls as frame_support::traits::Polling<TallyOf<T, I>>>::Class) -> Self {
		Tally { bare_ayes: 0, ayes: 0, nays: 0, dummy: PhantomData }
	}
	fn ayes(&self, _: <T::Polls as frame_support::traits::Polling<TallyOf<T, I>>>::Class) -> Votes {
		self.bare_ayes
	}
	fn support(&self, c: <T::Polls as frame_support::traits::Polling<TallyOf<T, I>>>::Class) -> Perbill {
		let min = T::MinRankOfClass::convert(c);
		Perbill::from_rational(self.bare_ayes, Pallet::<T, I>::members_from(min))
	}
	fn approval(&self, _: <T::Polls as frame_support::traits::Polling<TallyOf<T, I>>>::Class) -> Perbill {
		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
	}
}
/// A signed member of at least the given rank; yields the account.
pub struct EnsureMember<T, I, const MIN_RANK: u16>(PhantomData<(T, I)>);
impl<T: Config<I>, I: 'static, const MIN_RANK: u16> EnsureOrigin<T::RuntimeOrigin> for EnsureMember<T, I, MIN_RANK> {
	type Success = T::AccountId;
	fn try_origin(o: T::RuntimeOrigin) -> Result<T::AccountId, T::RuntimeOrigin> {
		match frame_support::traits::OriginTrait::as_system_signer(&o) {
			Some(w) => match Members::<T, I>::get(w) {
				Some(r) if r >= MIN_RANK => Ok(w.clone()),
				_ => Err(o),
			},
			None => Err(o),
		}
	}
}
impl<T: Config<I>, I: 'static, A, const MIN_RANK: u16> EnsureOriginWithArg<T::RuntimeOrigin, A> for EnsureMember<T, I, MIN_RANK> {
	type Success = T::AccountId;
	fn try_origin(o: T::RuntimeOrigin, _: &A) -> Result<T::AccountId, T::RuntimeOrigin> {
		<Self as EnsureOrigin<_>>::try_origin(o)
	}
}
pub struct EnsureRanked<T, I, const MIN_RANK: u16>(PhantomData<(T, I)>);
impl<T: Config<I>, I: 'static, const MIN_RANK: u16> EnsureOrigin<T::RuntimeOrigin> for EnsureRanked<T, I, MIN_RANK> {
	type Success = Rank;
	fn try_origin(o: T::RuntimeOrigin) -> Result<Rank, T::RuntimeOrigin> {
		match frame_support::traits::OriginTrait::as_system_signer(&o).and_then(Members::<T, I>::get) {
			Some(r) if r >= MIN_RANK => Ok(r),
			_ => Err(o),
		}
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{Polling, RankedMembers};
	use frame_system::pallet_prelude::*;
	use shim_base::traits::StaticLookup;

	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type AddOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type PromoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type DemoteOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type RemoveOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = Rank>;
		type ExchangeOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type MemberSwappedHandler;
		type Polls: Polling<TallyOf<Self, I>, Votes = Votes, Moment = BlockNumberFor<Self>>;
		type MinRankOfClass: Convert<<Self::Polls as Polling<TallyOf<Self, I>>>::Class, Rank>;
		type VoteWeight: Convert<Rank, Votes>;
		type MaxMemberCount;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, T::AccountId, Rank>;
	#[pallet::storage]
	pub type Voting<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, (<T::Polls as Polling<TallyOf<T, I>>>::Index, T::AccountId), (bool, Votes)>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		MemberAdded { who: T::AccountId },
		RankChanged { who: T::AccountId, rank: Rank },
		MemberRemoved { who: T::AccountId, rank: Rank },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		AlreadyMember,
		NotMember,
		NotPolling,
		RankTooLow,
		InvalidWitness,
		NoPermission,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn add_member(origin: OriginFor<T>, who: LookupOf<T>) -> DispatchResult {
			let _ = T::AddOrigin::ensure_origin(origin)?;
			<Self as RankedMembers>::induct(&T::Lookup::lookup(who)?)
		}
		#[pallet::call_index(1)]
		pub fn promote_member(origin: OriginFor<T>, who: LookupOf<T>) -> DispatchResult {
			let max = T::PromoteOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;
			let r = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			ensure!(max > r, Error::<T, I>::NoPermission);
			<Self as RankedMembers>::promote(&who)
		}
		#[pallet::call_index(2)]
		pub fn demote_member(origin: OriginFor<T>, who: LookupOf<T>) -> DispatchResult {
			let max = T::DemoteOrigin::ensure_origin(origin)?;
			let who = T::Lookup::lookup(who)?;
			let r = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			ensure!(max >= r, Error::<T, I>::NoPermission);
			<Self as RankedMembers>::demote(&who)
		}
		#[pallet::call_index(4)]
		pub fn vote(origin: OriginFor<T>, poll: <T::Polls as Polling<TallyOf<T, I>>>::Index, aye: bool) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let rank = Members::<T, I>::get(&who).ok_or(Error::<T, I>::NotMember)?;
			T::Polls::try_access_poll(poll, |s| {
				let (tally, class) = s.ensure_ongoing().ok_or(Error::<T, I>::NotPolling)?;
				let excess = rank.checked_sub(T::MinRankOfClass::convert(class)).ok_or(Error::<T, I>::RankTooLow)?;
				let w = T::VoteWeight::convert(excess);
				match Voting::<T, I>::get((poll, who.clone())) {
					Some((true, v)) => {
						tally.bare_ayes -= 1;
						tally.ayes -= v;
					}
					Some((false, v)) => tally.nays -= v,
					None => {}
				}
				if aye {
					tally.bare_ayes += 1;
					tally.ayes += w;
				} else {
					tally.nays += w;
				}
				Voting::<T, I>::insert((poll, who.clone()), (aye, w));
				Ok(())
			})
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub fn members_from(min: Rank) -> u32 {
			Members::<T, I>::iter().filter(|x| x.1 >= min).count() as u32
		}
	}
	impl<T: Config<I>, I: 'static> RankedMembers for Pallet<T, I> {
		type AccountId = T::AccountId;
		type Rank = Rank;
		fn min_rank() -> Rank {
			0
		}
		fn rank_of(who: &T::AccountId) -> Option<Rank> {
			Members::<T, I>::get(who)
		}
		fn induct(who: &T::AccountId) -> DispatchResult {
			ensure!(!Members::<T, I>::contains_key(who), Error::<T, I>::AlreadyMember);
			Members::<T, I>::insert(who, 0);
			Self::deposit_event(Event::MemberAdded { who: who.clone() });
			Ok(())
		}
		fn promote(who: &T::AccountId) -> DispatchResult {
			let r = Members::<T, I>::get(who).ok_or(Error::<T, I>::NotMember)?;
			let rank = r.checked_add(1).ok_or(DispatchError::Arithmetic(ArithmeticError::Overflow))?;
			Members::<T, I>::insert(who, rank);
			Self::deposit_event(Event::RankChanged { who: who.clone(), rank });
			Ok(())
		}
		fn demote(who: &T::AccountId) -> DispatchResult {
			match Members::<T, I>::get(who).ok_or(Error::<T, I>::NotMember)? {
				0 => {
					Members::<T, I>::remove(who);
					Self::deposit_event(Event::MemberRemoved { who: who.clone(), rank: 0 });
				}
				r => {
					Members::<T, I>::insert(who, r - 1);
					Self::deposit_event(Event::RankChanged { who: who.clone(), rank: r - 1 });
				}
			}
			Ok(())
		}
	}
}
