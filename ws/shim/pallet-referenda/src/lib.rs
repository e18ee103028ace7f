//! Referenda in tracks, following the original: submission, preparation, deciding with queues, confirmation,
//! enactment through the scheduler, alarms, deposits.
use frame_support::traits::{schedule::DispatchTime, Bounded};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::{One, Perbill, Saturating, Zero};
use shim_base::fixed::FixedI64;
use std::borrow::Cow;

pub use frame_support::instances::*;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
pub type ReferendumIndex = u32;
pub type BalanceOf<T, I = ()> =
	<<T as Config<I>>::Currency as frame_support::traits::Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type BlockNumberFor<T> = frame_system::pallet_prelude::BlockNumberFor<T>;
pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as frame_support::traits::OriginTrait>::PalletsOrigin;
pub type CallOf<T, I = ()> = <T as Config<I>>::RuntimeCall;
pub type BoundedCallOf<T, I = ()> = Bounded<CallOf<T, I>, <T as frame_system::Config>::Hashing>;
pub type VotesOf<T, I = ()> = <T as Config<I>>::Votes;
pub type TallyOf<T, I = ()> = <T as Config<I>>::Tally;
pub type TrackIdOf<T, I = ()> = <<T as Config<I>>::Tracks as TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>>>::Id;
pub type TrackInfoOf<T, I = ()> = TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
pub type ScheduleAddressOf<T, I = ()> =
	<<T as Config<I>>::Scheduler as frame_support::traits::schedule::v3::Anon<BlockNumberFor<T>, CallOf<T, I>, PalletsOriginOf<T>>>::Address;

#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub struct TrackInfo<Balance, Moment, const N: usize = 25> {
	pub name: [u8; N],
	pub max_deciding: u32,
	pub decision_deposit: Balance,
	pub prepare_period: Moment,
	pub decision_period: Moment,
	pub confirm_period: Moment,
	pub min_enactment_period: Moment,
	pub min_approval: Curve,
	pub min_support: Curve,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub struct Track<Id, Balance, Moment, const N: usize = 25> {
	pub id: Id,
	pub info: TrackInfo<Balance, Moment, N>,
}
pub trait TracksInfo<Balance: Clone + 'static, Moment: Clone + 'static> {
	type Id: Copy + frame_support::Parameter + Ord + Send + Sync + 'static + MaxEncodedLen;
	type RuntimeOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>>;
	fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
	fn info(id: Self::Id) -> Option<Cow<'static, TrackInfo<Balance, Moment>>> {
		Self::tracks().find(|x| x.id == id).map(|t| Cow::Owned(t.into_owned().info))
	}
	fn track_ids() -> impl Iterator<Item = Self::Id> {
		Self::tracks().map(|x| x.id)
	}
}
#[macro_export]
macro_rules! impl_tracksinfo_get {
	($t:ty, $b:ty, $n:ty) => {
		impl frame_support::traits::Get<Vec<$crate::Track<<$t as $crate::TracksInfo<$b, $n>>::Id, $b, $n>>> for $t {
			fn get() -> Vec<$crate::Track<<$t as $crate::TracksInfo<$b, $n>>::Id, $b, $n>> {
				<$t as $crate::TracksInfo<$b, $n>>::tracks().map(|t| t.into_owned()).collect()
			}
		}
	};
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub enum Curve {
	LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
	Reciprocal { factor: FixedI64, x_offset: FixedI64, y_offset: FixedI64 },
}
fn ratio(a: Perbill, b: Perbill, up: bool) -> Perbill {
	let (a, b) = (a.deconstruct() as u128, b.deconstruct() as u128);
	if b == 0 {
		return Perbill::one();
	}
	let n = a * 1_000_000_000;
	Perbill::from_parts((if up { n.div_ceil(b) } else { n / b }).min(1_000_000_000) as u32)
}
impl Curve {
	pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
		let length = FixedI64::from_rational(length, period).into_perbill();
		Curve::LinearDecreasing { length, floor: floor.into_perbill(), ceil: ceil.into_perbill() }
	}
	pub fn threshold(&self, x: Perbill) -> Perbill {
		match self {
			Self::LinearDecreasing { length, floor, ceil } => *ceil - ratio(x.min(*length), *length, false) * (*ceil - *floor),
			Self::SteppedDecreasing { begin, end, step, period } => {
				let n = if period.is_zero() { 0 } else { x.deconstruct() / period.deconstruct() };
				let down = (step.deconstruct() as u64 * n as u64).min(1_000_000_000) as u32;
				(*begin - (Perbill::from_parts(down)).min(*begin)).max(*end)
			}
			Self::Reciprocal { .. } => unimplemented!("reciprocal curves are not used by the code under test"),
		}
	}
	pub fn delay(&self, y: Perbill) -> Perbill {
		match self {
			Self::LinearDecreasing { length, floor, ceil } =>
				if y < *floor {
					Perbill::one()
				} else if y > *ceil {
					Perbill::zero()
				} else {
					ratio(*ceil - y, *ceil - *floor, true) * *length
				},
			_ => unimplemented!("only linear curves are used by the code under test"),
		}
	}
	pub fn passing(&self, x: Perbill, y: Perbill) -> bool {
		y >= self.threshold(x)
	}
}

#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub struct Deposit<AccountId, Balance> {
	pub who: AccountId,
	pub amount: Balance,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub struct DecidingStatus<BlockNumber> {
	pub since: BlockNumber,
	pub confirming: Option<BlockNumber>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct ReferendumStatus<TrackId, Origin, Moment, Call, Balance, Tally, AccountId, Address> {
	pub track: TrackId,
	pub origin: Origin,
	pub proposal: Call,
	pub enactment: DispatchTime<Moment>,
	pub submitted: Moment,
	pub submission_deposit: Deposit<AccountId, Balance>,
	pub decision_deposit: Option<Deposit<AccountId, Balance>>,
	pub deciding: Option<DecidingStatus<Moment>>,
	pub tally: Tally,
	pub in_queue: bool,
	pub alarm: Option<(Moment, Address)>,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum ReferendumInfo<TrackId, Origin, Moment, Call, Balance, Tally, AccountId, Address> {
	Ongoing(ReferendumStatus<TrackId, Origin, Moment, Call, Balance, Tally, AccountId, Address>),
	Approved(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Rejected(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Cancelled(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	TimedOut(Moment, Option<Deposit<AccountId, Balance>>, Option<Deposit<AccountId, Balance>>),
	Killed(Moment),
}
pub type ReferendumStatusOf<T, I> = ReferendumStatus<
	TrackIdOf<T, I>,
	PalletsOriginOf<T>,
	BlockNumberFor<T>,
	BoundedCallOf<T, I>,
	BalanceOf<T, I>,
	TallyOf<T, I>,
	<T as frame_system::Config>::AccountId,
	ScheduleAddressOf<T, I>,
>;
pub type ReferendumInfoOf<T, I> = ReferendumInfo<
	TrackIdOf<T, I>,
	PalletsOriginOf<T>,
	BlockNumberFor<T>,
	BoundedCallOf<T, I>,
	BalanceOf<T, I>,
	TallyOf<T, I>,
	<T as frame_system::Config>::AccountId,
	ScheduleAddressOf<T, I>,
>;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::dispatch::Dispatchable;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{
		schedule::v3::{Anon, Named},
		Currency, EnsureOriginWithArg, OriginTrait, PollStatus, Polling, QueryPreimage, ReservableCurrency, StorePreimage, VoteTally,
	};
	use frame_system::pallet_prelude::{ensure_root, ensure_signed, ensure_signed_or_root, OriginFor};

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config + Sized {
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin>
			+ From<Call<Self, I>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>
			+ From<frame_system::Call<Self>>;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type Scheduler: Anon<BlockNumberFor<Self>, CallOf<Self, I>, PalletsOriginOf<Self>, Hasher = Self::Hashing, Address: Parameter>
			+ Named<BlockNumberFor<Self>, CallOf<Self, I>, PalletsOriginOf<Self>, Hasher = Self::Hashing>;
		type Currency: ReservableCurrency<Self::AccountId>;
		type SubmitOrigin: EnsureOriginWithArg<OriginFor<Self>, PalletsOriginOf<Self>, Success = Self::AccountId>;
		type CancelOrigin: EnsureOrigin<OriginFor<Self>>;
		type KillOrigin: EnsureOrigin<OriginFor<Self>>;
		type Slash;
		type Votes: Parameter + Member + Ord + Copy + parity_scale_codec::HasCompact + MaxEncodedLen + Default;
		type Tally: VoteTally<Self::Votes, TrackIdOf<Self, I>> + Clone + parity_scale_codec::Codec + Eq + std::fmt::Debug + TypeInfo + MaxEncodedLen + 'static;
		type SubmissionDeposit: Get<BalanceOf<Self, I>>;
		type MaxQueued: Get<u32>;
		type UndecidingTimeout: Get<BlockNumberFor<Self>>;
		type AlarmInterval: Get<BlockNumberFor<Self>>;
		type Tracks: TracksInfo<BalanceOf<Self, I>, BlockNumberFor<Self>, RuntimeOrigin = PalletsOriginOf<Self>>;
		type Preimages: QueryPreimage<H = Self::Hashing> + StorePreimage;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type ReferendumCount<T: Config<I>, I: 'static = ()> = StorageValue<_, ReferendumIndex, ValueQuery>;
	#[pallet::storage]
	pub type ReferendumInfoFor<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, ReferendumIndex, ReferendumInfoOf<T, I>>;
	#[pallet::storage]
	pub type TrackQueue<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Twox64Concat, TrackIdOf<T, I>, Vec<(ReferendumIndex, T::Votes)>, ValueQuery>;
	#[pallet::storage]
	pub type DecidingCount<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, TrackIdOf<T, I>, u32, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Submitted { index: ReferendumIndex, track: TrackIdOf<T, I>, proposal: BoundedCallOf<T, I> },
		DecisionDepositPlaced { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
		DecisionDepositRefunded { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
		DepositSlashed { who: T::AccountId, amount: BalanceOf<T, I> },
		DecisionStarted { index: ReferendumIndex, track: TrackIdOf<T, I>, proposal: BoundedCallOf<T, I>, tally: T::Tally },
		ConfirmStarted { index: ReferendumIndex },
		ConfirmAborted { index: ReferendumIndex },
		Confirmed { index: ReferendumIndex, tally: T::Tally },
		Approved { index: ReferendumIndex },
		Rejected { index: ReferendumIndex, tally: T::Tally },
		TimedOut { index: ReferendumIndex, tally: T::Tally },
		Cancelled { index: ReferendumIndex, tally: T::Tally },
		Killed { index: ReferendumIndex, tally: T::Tally },
		SubmissionDepositRefunded { index: ReferendumIndex, who: T::AccountId, amount: BalanceOf<T, I> },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NotOngoing,
		HasDeposit,
		BadTrack,
		Full,
		QueueEmpty,
		BadReferendum,
		NothingToDo,
		NoTrack,
		Unfinished,
		NoPermission,
		NoDeposit,
		BadStatus,
		PreimageNotExist,
		PreimageStoredWithDifferentLength,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn submit(
			origin: OriginFor<T>,
			proposal_origin: Box<PalletsOriginOf<T>>,
			proposal: BoundedCallOf<T, I>,
			enactment_moment: DispatchTime<BlockNumberFor<T>>,
		) -> DispatchResult {
			let proposal_origin = *proposal_origin;
			let who = <T::SubmitOrigin as EnsureOriginWithArg<_, _>>::ensure_origin(origin, &proposal_origin)?;
			let track = T::Tracks::track_for(&proposal_origin).map_err(|_| Error::<T, I>::NoTrack)?;
			let amount = T::SubmissionDeposit::get();
			T::Currency::reserve(&who, amount)?;
			let index = ReferendumCount::<T, I>::mutate(|x| {
				let r = *x;
				*x += 1;
				r
			});
			let now = frame_system::Pallet::<T>::block_number();
			let status = ReferendumStatus {
				track,
				origin: proposal_origin,
				proposal: proposal.clone(),
				enactment: enactment_moment,
				submitted: now,
				submission_deposit: Deposit { who, amount },
				decision_deposit: None,
				deciding: None,
				tally: TallyOf::<T, I>::new(track),
				in_queue: false,
				alarm: Self::set_alarm(index, now.saturating_add(T::UndecidingTimeout::get())),
			};
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
			Self::deposit_event(Event::Submitted { index, track, proposal });
			Ok(())
		}
		#[pallet::call_index(1)]
		pub fn place_decision_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let mut status = Self::ensure_ongoing(index)?;
			ensure!(status.decision_deposit.is_none(), Error::<T, I>::HasDeposit);
			let amount = Self::track(status.track).ok_or(Error::<T, I>::NoTrack)?.decision_deposit;
			T::Currency::reserve(&who, amount)?;
			status.decision_deposit = Some(Deposit { who: who.clone(), amount });
			let (info, _) = Self::service(frame_system::Pallet::<T>::block_number(), index, status);
			ReferendumInfoFor::<T, I>::insert(index, info);
			Self::deposit_event(Event::DecisionDepositPlaced { index, who, amount });
			Ok(())
		}
		#[pallet::call_index(2)]
		pub fn refund_decision_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			ensure_signed_or_root(origin)?;
			let mut info = ReferendumInfoFor::<T, I>::get(index).ok_or(Error::<T, I>::BadReferendum)?;
			let d = match &mut info {
				ReferendumInfo::Ongoing(_) => return Err(Error::<T, I>::Unfinished.into()),
				ReferendumInfo::Approved(_, _, d) | ReferendumInfo::Rejected(_, _, d) | ReferendumInfo::Cancelled(_, _, d) | ReferendumInfo::TimedOut(_, _, d) => d.take(),
				ReferendumInfo::Killed(_) => None,
			};
			if let Some(d) = d {
				T::Currency::unreserve(&d.who, d.amount);
				ReferendumInfoFor::<T, I>::insert(index, info);
				Self::deposit_event(Event::DecisionDepositRefunded { index, who: d.who, amount: d.amount });
			}
			Ok(())
		}
		#[pallet::call_index(3)]
		pub fn cancel(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			T::CancelOrigin::ensure_origin(origin)?;
			let mut status = Self::ensure_ongoing(index)?;
			Self::drop_alarm(&mut status);
			Self::note_one_fewer_deciding(&status);
			Self::deposit_event(Event::Cancelled { index, tally: status.tally });
			let now = frame_system::Pallet::<T>::block_number();
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Cancelled(now, Some(status.submission_deposit), status.decision_deposit));
			Ok(())
		}
		#[pallet::call_index(4)]
		pub fn kill(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			T::KillOrigin::ensure_origin(origin)?;
			let mut status = Self::ensure_ongoing(index)?;
			Self::drop_alarm(&mut status);
			Self::note_one_fewer_deciding(&status);
			Self::deposit_event(Event::Killed { index, tally: status.tally.clone() });
			for d in [Some(status.submission_deposit), status.decision_deposit].into_iter().flatten() {
				T::Currency::slash_reserved(&d.who, d.amount);
				Self::deposit_event(Event::DepositSlashed { who: d.who, amount: d.amount });
			}
			ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Killed(frame_system::Pallet::<T>::block_number()));
			Ok(())
		}
		#[pallet::call_index(5)]
		pub fn nudge_referendum(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			ensure_root(origin)?;
			let mut status = Self::ensure_ongoing(index)?;
			status.alarm = None;
			let (info, _) = Self::service(frame_system::Pallet::<T>::block_number(), index, status);
			ReferendumInfoFor::<T, I>::insert(index, info);
			Ok(())
		}
		#[pallet::call_index(6)]
		pub fn one_fewer_deciding(origin: OriginFor<T>, track: TrackIdOf<T, I>) -> DispatchResult {
			ensure_root(origin)?;
			let info = Self::track(track).ok_or(Error::<T, I>::BadTrack)?;
			let mut queue = TrackQueue::<T, I>::get(track);
			if let Some((index, _)) = queue.pop() {
				TrackQueue::<T, I>::insert(track, queue);
				let now = frame_system::Pallet::<T>::block_number();
				let mut status = Self::ensure_ongoing(index)?;
				status.in_queue = false;
				let alarm = Self::begin_deciding(&mut status, index, now, &info);
				Self::alarm_at(&mut status, index, alarm);
				ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
			} else {
				DecidingCount::<T, I>::mutate(track, |x| *x = x.saturating_sub(1));
			}
			Ok(())
		}
		#[pallet::call_index(7)]
		pub fn refund_submission_deposit(origin: OriginFor<T>, index: ReferendumIndex) -> DispatchResult {
			ensure_signed_or_root(origin)?;
			let mut info = ReferendumInfoFor::<T, I>::get(index).ok_or(Error::<T, I>::BadReferendum)?;
			let d = match &mut info {
				ReferendumInfo::Approved(_, d, _) | ReferendumInfo::Cancelled(_, d, _) => d.take(),
				_ => return Err(Error::<T, I>::BadStatus.into()),
			}
			.ok_or(Error::<T, I>::NoDeposit)?;
			T::Currency::unreserve(&d.who, d.amount);
			ReferendumInfoFor::<T, I>::insert(index, info);
			Self::deposit_event(Event::SubmissionDepositRefunded { index, who: d.who, amount: d.amount });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> Polling<T::Tally> for Pallet<T, I> {
		type Index = ReferendumIndex;
		type Votes = VotesOf<T, I>;
		type Moment = BlockNumberFor<T>;
		type Class = TrackIdOf<T, I>;
		fn classes() -> Vec<Self::Class> {
			T::Tracks::track_ids().collect()
		}
		fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut T::Tally, BlockNumberFor<T>, TrackIdOf<T, I>>) -> R) -> R {
			match ReferendumInfoFor::<T, I>::get(index) {
				Some(ReferendumInfo::Ongoing(mut status)) => {
					let r = f(PollStatus::Ongoing(&mut status.tally, status.track));
					let now = frame_system::Pallet::<T>::block_number();
					Self::alarm_at(&mut status, index, now + One::one());
					ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
					r
				}
				Some(ReferendumInfo::Approved(end, ..)) => f(PollStatus::Completed(end, true)),
				Some(ReferendumInfo::Rejected(end, ..)) => f(PollStatus::Completed(end, false)),
				_ => f(PollStatus::None),
			}
		}
		fn try_access_poll<R>(
			index: Self::Index,
			f: impl FnOnce(PollStatus<&mut T::Tally, BlockNumberFor<T>, TrackIdOf<T, I>>) -> Result<R, DispatchError>,
		) -> Result<R, DispatchError> {
			match ReferendumInfoFor::<T, I>::get(index) {
				Some(ReferendumInfo::Ongoing(mut status)) => {
					let r = f(PollStatus::Ongoing(&mut status.tally, status.track))?;
					let now = frame_system::Pallet::<T>::block_number();
					Self::alarm_at(&mut status, index, now + One::one());
					ReferendumInfoFor::<T, I>::insert(index, ReferendumInfo::Ongoing(status));
					Ok(r)
				}
				Some(ReferendumInfo::Approved(end, ..)) => f(PollStatus::Completed(end, true)),
				Some(ReferendumInfo::Rejected(end, ..)) => f(PollStatus::Completed(end, false)),
				_ => f(PollStatus::None),
			}
		}
		fn as_ongoing(index: Self::Index) -> Option<(T::Tally, TrackIdOf<T, I>)> {
			Self::ensure_ongoing(index).ok().map(|x| (x.tally, x.track))
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub fn ensure_ongoing(index: ReferendumIndex) -> Result<ReferendumStatusOf<T, I>, DispatchError> {
			match ReferendumInfoFor::<T, I>::get(index) {
				Some(ReferendumInfo::Ongoing(status)) => Ok(status),
				_ => Err(Error::<T, I>::NotOngoing.into()),
			}
		}
		pub fn is_referendum_passing(index: ReferendumIndex) -> Result<bool, DispatchError> {
			let status = Self::ensure_ongoing(index)?;
			let track = Self::track(status.track).ok_or(Error::<T, I>::NoTrack)?;
			let since = status.deciding.as_ref().map_or_else(Zero::zero, |d| frame_system::Pallet::<T>::block_number().saturating_sub(d.since));
			Ok(Self::is_passing(&status, since, &track))
		}
		fn track(id: TrackIdOf<T, I>) -> Option<TrackInfoOf<T, I>> {
			T::Tracks::info(id).map(|x| x.into_owned())
		}
		fn set_alarm(index: ReferendumIndex, when: BlockNumberFor<T>) -> Option<(BlockNumberFor<T>, ScheduleAddressOf<T, I>)> {
			let step = T::AlarmInterval::get().max(One::one());
			// Alarm must go off no earlier than `when`.
			let when = (when.saturating_add(step - One::one())) / step * step;
			let call = T::Preimages::bound(CallOf::<T, I>::from(Call::nudge_referendum { index })).ok()?;
			T::Scheduler::schedule(DispatchTime::At(when), None, 128u8, frame_system::RawOrigin::Root.into(), call).ok().map(|x| (when, x))
		}
		fn alarm_at(status: &mut ReferendumStatusOf<T, I>, index: ReferendumIndex, alarm: BlockNumberFor<T>) {
			if status.alarm.as_ref().map_or(true, |a| a.0 != alarm) {
				Self::drop_alarm(status);
				status.alarm = Self::set_alarm(index, alarm);
			}
		}
		fn drop_alarm(status: &mut ReferendumStatusOf<T, I>) {
			if let Some((_, a)) = status.alarm.take() {
				let _ = <T::Scheduler as Anon<_, _, _>>::cancel(a);
			}
		}
		fn note_one_fewer_deciding(status: &ReferendumStatusOf<T, I>) {
			if status.deciding.is_some() {
				let now = frame_system::Pallet::<T>::block_number();
				if let Ok(call) = T::Preimages::bound(CallOf::<T, I>::from(Call::one_fewer_deciding { track: status.track })) {
					let _ = T::Scheduler::schedule(DispatchTime::At(now + One::one()), None, 128u8, frame_system::RawOrigin::Root.into(), call);
				}
			}
		}
		fn is_passing(status: &ReferendumStatusOf<T, I>, elapsed: BlockNumberFor<T>, track: &TrackInfoOf<T, I>) -> bool {
			let x = Perbill::from_rational(elapsed.min(track.decision_period), track.decision_period);
			track.min_support.passing(x, status.tally.support(status.track)) && track.min_approval.passing(x, status.tally.approval(status.track))
		}
		fn decision_time(status: &ReferendumStatusOf<T, I>, track: &TrackInfoOf<T, I>) -> BlockNumberFor<T> {
			let d = status.deciding.as_ref().expect("deciding");
			d.confirming.unwrap_or_else(|| {
				let approval = track.min_approval.delay(status.tally.approval(status.track));
				let support = track.min_support.delay(status.tally.support(status.track));
				d.since.saturating_add(approval.max(support).mul_ceil(track.decision_period))
			})
		}
		fn begin_deciding(status: &mut ReferendumStatusOf<T, I>, index: ReferendumIndex, now: BlockNumberFor<T>, track: &TrackInfoOf<T, I>) -> BlockNumberFor<T> {
			let passing = Self::is_passing(status, Zero::zero(), track);
			status.in_queue = false;
			Self::deposit_event(Event::DecisionStarted { index, track: status.track, proposal: status.proposal.clone(), tally: status.tally.clone() });
			let confirming = passing.then(|| {
				Self::deposit_event(Event::ConfirmStarted { index });
				now.saturating_add(track.confirm_period)
			});
			status.deciding = Some(DecidingStatus { since: now, confirming });
			Self::decision_time(status, track).max(now + One::one())
		}
		fn service(now: BlockNumberFor<T>, index: ReferendumIndex, mut status: ReferendumStatusOf<T, I>) -> (ReferendumInfoOf<T, I>, bool) {
			let Some(track) = Self::track(status.track) else { return (ReferendumInfo::Ongoing(status), false) };
			let timeout = status.submitted + T::UndecidingTimeout::get();
			let mut alarm: Option<BlockNumberFor<T>> = None;
			match status.deciding.clone() {
				None => {
					if status.in_queue {
						let ayes = status.tally.ayes(status.track);
						TrackQueue::<T, I>::mutate(status.track, |q| {
							if let Some(p) = q.iter().position(|x| x.0 == index) {
								q.remove(p);
							}
							let p = q.iter().position(|x| x.1 >= ayes).unwrap_or(q.len());
							q.insert(p, (index, ayes));
						});
					} else if status.decision_deposit.is_some() {
						let prepare_end = status.submitted.saturating_add(track.prepare_period);
						if now >= prepare_end {
							let n = DecidingCount::<T, I>::get(status.track);
							if n < track.max_deciding {
								DecidingCount::<T, I>::insert(status.track, n + 1);
								alarm = Some(Self::begin_deciding(&mut status, index, now, &track));
							} else {
								let ayes = status.tally.ayes(status.track);
								let mut q = TrackQueue::<T, I>::get(status.track);
								let p = q.iter().position(|x| x.1 >= ayes).unwrap_or(q.len());
								q.insert(p, (index, ayes));
								if q.len() as u32 > T::MaxQueued::get() {
									let (dropped, _) = q.remove(0);
									if dropped != index {
										ReferendumInfoFor::<T, I>::mutate(dropped, |i| {
											if let Some(ReferendumInfo::Ongoing(s)) = i {
												s.in_queue = false;
											}
										});
										status.in_queue = true;
									}
								} else {
									status.in_queue = true;
								}
								TrackQueue::<T, I>::insert(status.track, q);
							}
						} else {
							alarm = Some(prepare_end);
						}
					} else {
						alarm = Some(timeout);
					}
					if status.deciding.is_none() && !status.in_queue && now >= timeout {
						Self::drop_alarm(&mut status);
						Self::deposit_event(Event::TimedOut { index, tally: status.tally });
						return (ReferendumInfo::TimedOut(now, Some(status.submission_deposit), status.decision_deposit), true);
					}
				}
				Some(mut deciding) => {
					let passing = Self::is_passing(&status, now.saturating_sub(deciding.since), &track);
					if passing {
						match deciding.confirming {
							Some(t) if now >= t => {
								Self::drop_alarm(&mut status);
								Self::note_one_fewer_deciding(&status);
								let earliest = now.saturating_add(track.min_enactment_period);
								let when = status.enactment.evaluate(now).max(earliest);
								let name = (*b"assembly", "enactment", index).using_encoded(shim_base::hashing::blake2_256);
								let _ = T::Scheduler::schedule_named(name, DispatchTime::At(when), None, 63, status.origin.clone(), status.proposal.clone());
								Self::deposit_event(Event::Confirmed { index, tally: status.tally });
								return (ReferendumInfo::Approved(now, Some(status.submission_deposit), status.decision_deposit), true);
							}
							Some(_) => {}
							None => {
								deciding.confirming = Some(now.saturating_add(track.confirm_period));
								Self::deposit_event(Event::ConfirmStarted { index });
							}
						}
					} else {
						if now >= deciding.since.saturating_add(track.decision_period) {
							Self::drop_alarm(&mut status);
							Self::note_one_fewer_deciding(&status);
							Self::deposit_event(Event::Rejected { index, tally: status.tally });
							return (ReferendumInfo::Rejected(now, Some(status.submission_deposit), status.decision_deposit), true);
						}
						if deciding.confirming.is_some() {
							deciding.confirming = None;
							Self::deposit_event(Event::ConfirmAborted { index });
						}
					}
					status.deciding = Some(deciding);
					alarm = Some(Self::decision_time(&status, &track));
				}
			}
			match alarm {
				Some(a) => Self::alarm_at(&mut status, index, a),
				None => Self::drop_alarm(&mut status),
			}
			(ReferendumInfo::Ongoing(status), true)
		}
	}
}
