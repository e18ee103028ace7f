//! The system pallet: accounts and their reference counts, blocks, events and basic origins.
extern crate self as frame_system;

use frame_support::traits::*;
use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::runtime::{DispatchError, DispatchResult};
use shim_base::traits::{BadOrigin, Member};
use std::fmt::Debug;
use std::marker::PhantomData;

pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
pub type RefCount = u32;
pub type ConsumedWeight = frame_support::dispatch::PerDispatchClass<frame_support::weights::Weight>;

pub mod limits;
pub mod mocking {
	use shim_base::runtime::generic;
	pub type MockUncheckedExtrinsic<T, S = (), E = ()> = generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, S, E>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, shim_base::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, shim_base::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU128<T> = generic::Block<generic::Header<u128, shim_base::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod weights {
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
pub mod offchain {
	pub trait SendTransactionTypes<C> {}
	pub trait CreateTransactionBase<C> {}
}
pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as crate::Config>::Block as shim_base::traits::HeaderProvider>::HeaderT;
	pub type BlockNumberFor<T> = <HeaderFor<T> as shim_base::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <T as crate::Config>::Block;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
use pallet_prelude::BlockNumberFor;

#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
impl Default for Phase {
	fn default() -> Self {
		Self::Initialization
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct EventRecord<E, H> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<H>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RefStatus {
	Referenced,
	Unreferenced,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
pub trait SetCode<T: Config> {}
impl<T: Config> SetCode<T> for () {}
pub trait ConsumerLimits {
	fn max_consumers() -> RefCount;
	fn max_overflow() -> RefCount;
}
impl<const Z: u32> ConsumerLimits for ConstU32<Z> {
	fn max_consumers() -> RefCount {
		Z
	}
	fn max_overflow() -> RefCount {
		Z
	}
}
impl<N: Get<u32>, O: Get<u32>> ConsumerLimits for (N, O) {
	fn max_consumers() -> RefCount {
		N::get()
	}
	fn max_overflow() -> RefCount {
		O::get()
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone + Debug + TypeInfo {
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as Config>::RuntimeEvent>;
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<crate::limits::BlockWeights>;
		type BlockLength: Get<crate::limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ Debug
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter
			+ shim_base::traits::Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo>
			+ Debug
			+ From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + Default + Debug + Copy + MaxEncodedLen + From<u32> + core::ops::AddAssign;
		type Hash: Parameter + Member + Debug + Default + MaxEncodedLen + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord;
		type Hashing: shim_base::traits::Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + Debug + Ord + MaxEncodedLen + shim_base::traits::MaybeDisplay + shim_base::traits::MaybeSerializeDeserialize;
		type Lookup: shim_base::traits::StaticLookup<Target = Self::AccountId>;
		type Block: Parameter0 + shim_base::traits::Block + shim_base::traits::HeaderProvider;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
		type Version;
		type PalletInfo: PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type ExtensionsWeightInfo;
		type SS58Prefix;
		type OnSetCode;
		type MaxConsumers: ConsumerLimits;
		type SingleBlockMigrations;
		type MultiBlockMigrator;
		type PreInherents;
		type PostInherents;
		type PostTransactions;
	}
	pub trait Parameter0 {}
	impl<T> Parameter0 for T {}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_origin: T::RuntimeOrigin, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: T::RuntimeOrigin, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = pages;
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_code(origin: T::RuntimeOrigin, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = code;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_storage(origin: T::RuntimeOrigin, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in items {
				frame_support::storage::unhashed::put_raw(&k, &v);
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::zero())]
		pub fn remark_with_event(origin: T::RuntimeOrigin, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			use shim_base::traits::Hash;
			let sender = ensure_signed(origin)?;
			Self::deposit_event(Event::<T>::Remarked { sender, hash: T::Hashing::hash(&remark) }.into0());
			Ok(().into())
		}
	}

	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess,
		ExtrinsicFailed { dispatch_error: DispatchError },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	impl<T: Config> Event<T> {
		pub(crate) fn into0(self) -> T::RuntimeEvent {
			self.into()
		}
	}

	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
		MultiBlockMigrationsOngoing,
		NothingAuthorized,
		Unauthorized,
	}

	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type ExtrinsicIndex<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, [Weight; 3], ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::storage]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;

	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
}
pub mod config_preludes {
	pub struct TestDefaultConfig;
	pub struct ParaChainDefaultConfig;
	pub struct SolochainDefaultConfig;
}
pub trait DefaultConfig {}

impl<T: Config> Pallet<T> {
	pub fn block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn current_block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn extrinsic_index() -> Option<u32> {
		ExtrinsicIndex::<T>::get()
	}
	pub fn set_extrinsic_index(i: u32) {
		ExtrinsicIndex::<T>::put(i)
	}
	pub fn set_parent_hash(h: T::Hash) {
		ParentHash::<T>::put(h)
	}
	/// Events are not recorded in block zero.
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		use shim_base::arith::Zero;
		if Self::block_number().is_zero() {
			return;
		}
		Events::<T>::append(EventRecord::<T::RuntimeEvent, T::Hash> { phase: Phase::default(), event: event.into(), topics: vec![] });
		EventCount::<T>::mutate(|c| *c += 1);
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Events::<T>::get()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter().map(Box::new)
	}
	pub fn event_no_consensus(i: usize) -> Option<T::RuntimeEvent> {
		Events::<T>::get().get(i).map(|e| e.event.clone())
	}
	pub fn event_count() -> u32 {
		EventCount::<T>::get()
	}
	pub fn reset_events() {
		Events::<T>::kill();
		EventCount::<T>::kill();
	}
	#[track_caller]
	pub fn assert_has_event(event: T::RuntimeEvent) {
		assert!(Self::events().iter().any(|r| r.event == event), "expected event {event:?} not found in {:?}", Self::events());
	}
	#[track_caller]
	pub fn assert_last_event(event: T::RuntimeEvent) {
		let last = Self::events().last().expect("events expected").event.clone();
		assert_eq!(last, event, "expected event is not equal to the last event");
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn inc_account_nonce(who: impl parity_scale_codec::EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += 1u32.into());
	}
	pub fn account_nonce(who: impl parity_scale_codec::EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	fn on_created(who: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) {
		T::OnNewAccount::on_new_account(&who);
		Self::deposit_event(Event::<T>::NewAccount { account: who }.into0());
	}
	fn on_killed(who: T::AccountId) {
		T::OnKilledAccount::on_killed_account(&who);
		Self::deposit_event(Event::<T>::KilledAccount { account: who }.into0());
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			if let Some(mut account) = m.take() {
				if account.providers == 0 {
					account.providers = 1;
				}
				match (account.providers, account.consumers, account.sufficients) {
					(1, 0, 0) => {
						Self::on_killed(who.clone());
						Ok(DecRefStatus::Reaped)
					}
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						account.providers = x - 1;
						*m = Some(account);
						Ok(DecRefStatus::Exists)
					}
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created(who.clone(), a);
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |m| {
			if let Some(mut account) = m.take() {
				if account.sufficients == 0 {
					account.sufficients = 1;
				}
				match (account.sufficients, account.providers) {
					(1, 0) => {
						Self::on_killed(who.clone());
						DecRefStatus::Reaped
					}
					(x, _) => {
						account.sufficients = x - 1;
						*m = Some(account);
						DecRefStatus::Exists
					}
				}
			} else {
				DecRefStatus::Reaped
			}
		})
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.providers + a.sufficients
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::max_consumers() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| {
			a.consumers = a.consumers.saturating_sub(1);
		})
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn can_accrue_consumers(who: &T::AccountId, amount: u32) -> bool {
		let a = Account::<T>::get(who);
		match a.consumers.checked_add(amount) {
			Some(c) => a.providers > 0 && c <= T::MaxConsumers::max_consumers(),
			None => false,
		}
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		Self::can_accrue_consumers(who, 1)
	}
	pub fn initialize(n: &BlockNumberFor<T>, parent: &T::Hash) {
		Self::reset_events();
		Number::<T>::put(n);
		ParentHash::<T>::put(parent);
		BlockHash::<T>::insert(*n - 1u32.into(), parent);
		ExtrinsicIndex::<T>::put(0u32);
	}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some = if is_default { None } else { Some(account.data) };
		let r = f(&mut some)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(r)
	}
}
impl<T: Config> shim_base::traits::BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Self::block_number()
	}
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
	fn created(t: &T::AccountId) -> DispatchResult {
		Pallet::<T>::inc_providers(t);
		Ok(())
	}
	fn killed(t: &T::AccountId) -> DispatchResult {
		Pallet::<T>::dec_providers(t).map(|_| ())
	}
}
pub struct ChainContext<T>(PhantomData<T>);

// ---------------------------------------------------------------- origins
pub fn ensure_signed<O: OriginTrait<AccountId = A>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into_caller().into_system() {
		Some(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: OriginTrait<AccountId = A>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into_caller().into_system() {
		Some(RawOrigin::Root) => Ok(None),
		Some(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: OriginTrait>(o: O) -> Result<(), BadOrigin> {
	match o.into_caller().into_system() {
		Some(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: OriginTrait>(o: O) -> Result<(), BadOrigin> {
	match o.into_caller().into_system() {
		Some(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
fn system<O: OriginTrait>(o: O, f: impl FnOnce(&RawOrigin<O::AccountId>) -> bool) -> Result<RawOrigin<O::AccountId>, O> {
	match o.as_system_ref() {
		Some(s) if f(s) => Ok(o.into_caller().into_system().expect("checked")),
		_ => Err(o),
	}
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: OriginTrait, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		system(o, |s| matches!(s, RawOrigin::Root)).map(|_| ())
	}
}
frame_support::impl_ensure_origin_with_arg_ignoring_arg! { impl<{ O: OriginTrait, A, T }> EnsureOriginWithArg<O, T> for EnsureRoot<A> {} }
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<O: OriginTrait, A, S: TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		system(o, |s| matches!(s, RawOrigin::Root)).map(|_| S::get())
	}
}
frame_support::impl_ensure_origin_with_arg_ignoring_arg! { impl<{ O: OriginTrait, A, S: TypedGet, T }> EnsureOriginWithArg<O, T> for EnsureRootWithSuccess<A, S> {} }
pub struct EnsureWithSuccess<E, A, S>(PhantomData<(E, A, S)>);
impl<O: OriginTrait, E: EnsureOrigin<O>, A, S: TypedGet> EnsureOrigin<O> for EnsureWithSuccess<E, A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		E::try_origin(o).map(|_| S::get())
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: OriginTrait<AccountId = A>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		system(o, |s| matches!(s, RawOrigin::Signed(_))).map(|s| match s {
			RawOrigin::Signed(a) => a,
			_ => unreachable!(),
		})
	}
}
frame_support::impl_ensure_origin_with_arg_ignoring_arg! { impl<{ O: OriginTrait<AccountId = A>, A, T }> EnsureOriginWithArg<O, T> for EnsureSigned<A> {} }
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: OriginTrait<AccountId = A>, W: SortedMembers<A>, A: Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		system(o, |s| matches!(s, RawOrigin::Signed(a) if W::contains(a))).map(|s| match s {
			RawOrigin::Signed(a) => a,
			_ => unreachable!(),
		})
	}
}
frame_support::impl_ensure_origin_with_arg_ignoring_arg! { impl<{ O: OriginTrait<AccountId = A>, W: SortedMembers<A>, A: Ord, T }> EnsureOriginWithArg<O, T> for EnsureSignedBy<W, A> {} }
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: OriginTrait<AccountId = A>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		system(o, |s| matches!(s, RawOrigin::None)).map(|_| ())
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
impl<O, S, T> EnsureOriginWithArg<O, T> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O, _: &T) -> Result<S, O> {
		Err(o)
	}
}

pub mod extensions;
pub use extensions::*;
