use super::*;

// ---------------------------------------------------------------- pallets and calls
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default, TypeInfo)]
pub struct CrateVersion {
	pub major: u16,
	pub minor: u8,
	pub patch: u8,
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn module_name() -> &'static str;
	fn crate_version() -> CrateVersion;
}
pub trait GetRuntimeBlockType {
	type RuntimeBlock;
}
pub trait Callable<T: ?Sized> {
	type RuntimeCall;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_module_names() -> &'static [&'static str];
	fn get_call_names(module: &str) -> &'static [&'static str];
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait Task {}
pub trait ExtrinsicCall {}
pub trait InherentBuilder {}
pub trait SignedTransactionBuilder {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Encode, Decode)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self {
		StorageVersion(n)
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		shim_base::ext::put(&crate::storage::item_prefix(P::name(), ":__STORAGE_VERSION__:"), self.encode())
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		shim_base::ext::get(&crate::storage::item_prefix(P::name(), ":__STORAGE_VERSION__:"))
			.and_then(|b| Self::decode(&mut &b[..]).ok())
			.unwrap_or_default()
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
pub trait GetStorageVersion {
	fn in_code_storage_version() -> StorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub struct NoStorageVersionSet;
pub use shim_base::runtime::BuildGenesisConfig;

// ---------------------------------------------------------------- origins
pub trait CallerTrait<AccountId>: Parameter + Member + From<RawOrigin<AccountId>> {
	fn into_system(self) -> Option<RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::Root))
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::None))
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId> {
		self.into_caller().into_system().and_then(|s| match s {
			RawOrigin::Signed(w) => Some(w),
			_ => None,
		})
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>> {
		self.caller().as_system_ref()
	}
	fn into_signer(self) -> Option<Self::AccountId> {
		self.as_signed()
	}
	fn as_signer(&self) -> Option<&Self::AccountId> {
		self.caller().as_signed()
	}
	fn as_system_signer(&self) -> Option<&Self::AccountId> {
		self.caller().as_signed()
	}
}
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		}
		Self::ensure_origin(o).map(Some)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<E::Success, O> {
		E::try_origin(o)
	}
}
pub type AsEnsureOrigin<E> = E;
pub struct MapSuccess<E, M>(PhantomData<(E, M)>);
impl<O, E: EnsureOrigin<O>, M: Morph<E::Success>> EnsureOrigin<O> for MapSuccess<E, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<M::Outcome, O> {
		Ok(M::morph(E::try_origin(o)?))
	}
}
pub struct TryMapSuccess<E, M>(PhantomData<(E, M)>);
impl<O: Clone, E: EnsureOrigin<O>, M: TryMorph<E::Success>> EnsureOrigin<O> for TryMapSuccess<E, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<M::Outcome, O> {
		let orig = o.clone();
		M::try_morph(E::try_origin(o)?).map_err(|()| orig)
	}
}
pub struct TryWithMorphedArg<O, A, M, Inner, S>(PhantomData<(O, A, M, Inner, S)>);
pub struct MapSuccessWithArg<E, M>(PhantomData<(E, M)>);
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<L::Success, O> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A, Success = L::Success>> EnsureOriginWithArg<O, A> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O, a: &A) -> Result<L::Success, O> {
		L::try_origin(o, a).or_else(|o| R::try_origin(o, a))
	}
}
pub use shim_base::runtime::Either;
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |l| Ok(Either::Left(l)))
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A>> EnsureOriginWithArg<O, A> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		L::try_origin(o, a).map_or_else(|o| R::try_origin(o, a).map(Either::Right), |l| Ok(Either::Left(l)))
	}
}
pub struct NeverEnsureOrigin<Success>(PhantomData<Success>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<std::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> {
		(l == r).then_some(std::cmp::Ordering::Equal)
	}
}
pub trait EnsureOriginEqualOrHigherPrivilege {}

// ---------------------------------------------------------------- hooks
pub trait Hooks<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _remaining: Weight) -> Weight {
		Weight::zero()
	}
	fn on_poll(_n: BlockNumber, _w: &mut crate::weights::Weight) {}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait OnInitialize<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<BlockNumber> {
	fn on_finalize(_n: BlockNumber) {}
}
pub trait OnIdle<BlockNumber> {
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
impl OnRuntimeUpgrade for () {}
pub trait UncheckedOnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
macro_rules! hook_tuples {
	($($t:ident)*) => {
		impl<N: Clone, $($t: OnInitialize<N>),*> OnInitialize<N> for ($($t,)*) {
			fn on_initialize(n: N) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add(<$t>::on_initialize(n.clone())); )* let _ = &mut w; let _ = n; w }
		}
		impl<N: Clone, $($t: OnFinalize<N>),*> OnFinalize<N> for ($($t,)*) {
			fn on_finalize(n: N) { $( <$t>::on_finalize(n.clone()); )* let _ = n; }
		}
		impl<N: Clone, $($t: OnIdle<N>),*> OnIdle<N> for ($($t,)*) {
			fn on_idle(n: N, r: Weight) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add(<$t>::on_idle(n.clone(), r)); )* let _ = (&mut w, r); let _ = n; w }
		}
	};
}
hook_tuples!();
hook_tuples!(A);
hook_tuples!(A B);
hook_tuples!(A B C);
hook_tuples!(A B C D);
hook_tuples!(A B C D E);
hook_tuples!(A B C D E F);
hook_tuples!(A B C D E F G);
hook_tuples!(A B C D E F G H);
hook_tuples!(A B C D E F G H I);
hook_tuples!(A B C D E F G H I J);
hook_tuples!(A B C D E F G H I J K);
hook_tuples!(A B C D E F G H I J K L);
hook_tuples!(A B C D E F G H I J K L M);
hook_tuples!(A B C D E F G H I J K L M O);

// ---------------------------------------------------------------- membership of values
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
pub trait ContainsLengthBound {
	fn min_len() -> usize;
	fn max_len() -> usize;
}
macro_rules! contains_tuples {
	($($t:ident)*) => {
		impl<X, $($t: Contains<X>),*> Contains<X> for ($($t,)*) { fn contains(x: &X) -> bool { let _ = x; false $(|| <$t>::contains(x))* } }
		impl<X, Y, $($t: ContainsPair<X, Y>),*> ContainsPair<X, Y> for ($($t,)*) { fn contains(x: &X, y: &Y) -> bool { let _ = (x, y); false $(|| <$t>::contains(x, y))* } }
	};
}
contains_tuples!();
contains_tuples!(A);
contains_tuples!(A B);
contains_tuples!(A B C);
contains_tuples!(A B C D);
contains_tuples!(A B C D E);
contains_tuples!(A B C D E F);
contains_tuples!(A B C D E F G);
contains_tuples!(A B C D E F G H);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
pub struct EverythingBut<E>(PhantomData<E>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
	fn contains(t: &T) -> bool {
		!E::contains(t)
	}
}
impl<A, B, E: ContainsPair<A, B>> ContainsPair<A, B> for EverythingBut<E> {
	fn contains(a: &A, b: &B) -> bool {
		!E::contains(a, b)
	}
}
pub struct TheseExcept<These, Except>(PhantomData<(These, Except)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && !B::contains(t)
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
impl<X, Y, A: ContainsPair<X, Y>, B: ContainsPair<X, Y>> ContainsPair<X, Y> for InsideBoth<A, B> {
	fn contains(x: &X, y: &Y) -> bool {
		A::contains(x, y) && B::contains(x, y)
	}
}
pub struct Equals<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<X>> Contains<X> for Equals<T> {
	fn contains(t: &X) -> bool {
		t == &T::get()
	}
}
pub struct FromContainsPair<CP>(PhantomData<CP>);
impl<A, B, CP: ContainsPair<A, B>> Contains<(A, B)> for FromContainsPair<CP> {
	fn contains((a, b): &(A, B)) -> bool {
		CP::contains(a, b)
	}
}
pub struct FromContains<CA, CB>(PhantomData<(CA, CB)>);
impl<A, B, CA: Contains<A>, CB: Contains<B>> ContainsPair<A, B> for FromContains<CA, CB> {
	fn contains(a: &A, b: &B) -> bool {
		CA::contains(a) && CB::contains(b)
	}
}
pub struct IsInVec<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<Vec<X>>> Contains<X> for IsInVec<T> {
	fn contains(t: &X) -> bool {
		T::get().contains(t)
	}
}
pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
	fn sorted_members() -> Vec<T>;
	fn count() -> usize {
		Self::sorted_members().len()
	}
}
pub trait ChangeMembers<A> {}
impl<A> ChangeMembers<A> for () {}
pub trait InitializeMembers<A> {}
impl<A> InitializeMembers<A> for () {}
pub trait IsInstance {}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, t: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}

// ---------------------------------------------------------------- polls
pub enum PollStatus<Tally, Moment, Class> {
	None,
	Ongoing(Tally, Class),
	Completed(Moment, bool),
}
impl<Tally, Moment, Class> PollStatus<Tally, Moment, Class> {
	pub fn ensure_ongoing(self) -> Option<(Tally, Class)> {
		match self {
			Self::Ongoing(t, c) => Some((t, c)),
			_ => None,
		}
	}
}
pub trait VoteTally<Votes, Class> {
	fn new(_: Class) -> Self;
	fn ayes(&self, class: Class) -> Votes;
	fn support(&self, class: Class) -> shim_base::arith::Perbill;
	fn approval(&self, class: Class) -> shim_base::arith::Perbill;
	#[cfg(feature = "runtime-benchmarks")]
	fn unanimity(class: Class) -> Self;
	#[cfg(feature = "runtime-benchmarks")]
	fn rejection(class: Class) -> Self;
	#[cfg(feature = "runtime-benchmarks")]
	fn from_requirements(support: shim_base::arith::Perbill, approval: shim_base::arith::Perbill, class: Class) -> Self;
	#[cfg(feature = "runtime-benchmarks")]
	fn setup(class: Class, granularity: shim_base::arith::Perbill);
}
pub struct ClassCountOf<P, T>(PhantomData<(P, T)>);
impl<T, P: Polling<T>> Get<u32> for ClassCountOf<P, T> {
	fn get() -> u32 {
		P::classes().len() as u32
	}
}
pub trait Polling<Tally> {
	type Index: Parameter + Member + Ord + PartialOrd + Copy + parity_scale_codec::HasCompact + MaxEncodedLen;
	type Votes: Parameter + Member + Ord + PartialOrd + Copy + parity_scale_codec::HasCompact + MaxEncodedLen;
	type Class: Parameter + Member + Ord + PartialOrd + MaxEncodedLen;
	type Moment;
	fn classes() -> Vec<Self::Class>;
	fn as_ongoing(index: Self::Index) -> Option<(Tally, Self::Class)>;
	fn access_poll<R>(index: Self::Index, f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> R) -> R;
	fn try_access_poll<R>(
		index: Self::Index,
		f: impl FnOnce(PollStatus<&mut Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError>;
	fn create_ongoing(class: Self::Class) -> Result<Self::Index, ()> {
		let _ = class;
		Err(())
	}
	fn end_ongoing(index: Self::Index, approved: bool) -> Result<(), ()> {
		let _ = (index, approved);
		Err(())
	}
}
pub trait RankedMembers {
	type AccountId;
	type Rank;
	fn min_rank() -> Self::Rank;
	fn rank_of(who: &Self::AccountId) -> Option<Self::Rank>;
	fn induct(who: &Self::AccountId) -> DispatchResult;
	fn promote(who: &Self::AccountId) -> DispatchResult;
	fn demote(who: &Self::AccountId) -> DispatchResult;
}
pub trait RankedMembersSwapHandler<A, R> {}
impl<A, R> RankedMembersSwapHandler<A, R> for () {}

// ---------------------------------------------------------------- considerations
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Footprint {
	pub count: u64,
	pub size: u64,
}
impl Footprint {
	pub fn from_parts(items: usize, len: usize) -> Self {
		Footprint { count: items as u64, size: len as u64 }
	}
	pub fn from_encodable(e: impl Encode) -> Self {
		Self::from_parts(1, e.encoded_size())
	}
	pub fn from_mel<E: MaxEncodedLen>() -> Self {
		Self::from_parts(1, E::max_encoded_len())
	}
}
pub struct LinearStoragePrice<Base, Slope, Balance>(PhantomData<(Base, Slope, Balance)>);
impl<Base: Get<B>, Slope: Get<B>, B: From<u32> + shim_base::arith::Saturating + shim_base::arith::UniqueSaturatedFrom<u64>> Convert<Footprint, B>
	for LinearStoragePrice<Base, Slope, B>
{
	fn convert(a: Footprint) -> B {
		use shim_base::arith::Saturating;
		let s: B = B::unique_saturated_from(a.count.saturating_mul(a.size));
		Saturating::saturating_add(Saturating::saturating_mul(s, Slope::get()), Base::get())
	}
}
pub trait Consideration<AccountId, Footprint>: Member + Parameter + MaxEncodedLen {
	fn new(who: &AccountId, new: Footprint) -> Result<Self, DispatchError>;
	fn update(self, who: &AccountId, new: Footprint) -> Result<Self, DispatchError>;
	fn drop(self, who: &AccountId) -> Result<(), DispatchError>;
	fn burn(self, _who: &AccountId) {}
}
impl<A, F> Consideration<A, F> for () {
	fn new(_: &A, _: F) -> Result<Self, DispatchError> {
		Ok(())
	}
	fn update(self, _: &A, _: F) -> Result<Self, DispatchError> {
		Ok(())
	}
	fn drop(self, _: &A) -> Result<(), DispatchError> {
		Ok(())
	}
}
pub trait MaybeConsideration<A, F>: Consideration<A, F> {
	fn is_none(&self) -> bool;
}
pub trait Incrementable: Sized {
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! incr {
	($($t:ty),*) => { $(impl Incrementable for $t {
		fn increment(&self) -> Option<Self> { Some(self.saturating_add(1)) }
		fn initial_value() -> Option<Self> { Some(0) }
	})* };
}
incr!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
#[macro_export]
macro_rules! impl_incrementable {
	($($t:ty),+) => { $(impl $crate::traits::Incrementable for $t {
		fn increment(&self) -> Option<Self> { let mut v = *self; v.saturating_inc(); Some(v) }
		fn initial_value() -> Option<Self> { Some(0) }
	})* };
}
pub use impl_incrementable;

// ---------------------------------------------------------------- accounts and the environment
pub trait OnNewAccount<A> {
	fn on_new_account(_: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {}
pub trait HandleLifetime<T> {
	fn created(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
	fn killed(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
}
impl<T> HandleLifetime<T> for () {}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::mutate_exists(k, |m| {
			let mut v = m.take().unwrap_or_default();
			let r = f(&mut v);
			*m = Some(v);
			r
		})
	}
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
	}
}
pub trait AccountTouch<AssetId, AccountId> {
	type Balance;
	fn deposit_required(asset: AssetId) -> Self::Balance;
	fn should_touch(asset: AssetId, who: &AccountId) -> bool;
	fn touch(asset: AssetId, who: &AccountId, depositor: &AccountId) -> DispatchResult;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> std::time::Duration;
}
pub trait Randomness<O, B> {
	fn random(_: &[u8]) -> (O, B);
}
/// Who produces the block of a slot.
pub trait FindAuthor<A> {
	fn find_author(slot: u64) -> Option<A>;
}
impl<A> FindAuthor<A> for () {
	fn find_author(_: u64) -> Option<A> {
		None
	}
}
/// Whether somebody may produce blocks.
pub trait ValidatorRegistration<A> {
	fn is_registered(who: &A) -> bool;
}
pub trait OnTimestampSet<M> {}
impl<M> OnTimestampSet<M> for () {}
pub trait EstimateNextSessionRotation<N> {}
pub trait ValidatorSet<A> {}
pub trait ShouldEndSession<N> {}
pub trait Instance: 'static {
	const PREFIX: &'static str;
	const INDEX: u8;
}
pub type LockIdentifier = [u8; 8];
pub trait PalletsInfoAccess {}
/// Where messages wait, by whom they are from.
pub trait EnqueueMessage<O> {
	fn enqueue_message(message: Vec<u8>, origin: O);
}
impl<O> EnqueueMessage<O> for () {
	fn enqueue_message(_: Vec<u8>, _: O) {}
}
/// Where messages wait that are all from the same.
pub trait HandleMessage {
	fn handle_message(message: Vec<u8>);
}
impl HandleMessage for () {
	fn handle_message(_: Vec<u8>) {}
}
pub struct TransformOrigin<E, O, N, C>(PhantomData<(E, O, N, C)>);
impl<E: EnqueueMessage<O>, O, N, C: shim_base::traits::Convert<N, O>> EnqueueMessage<N> for TransformOrigin<E, O, N, C> {
	fn enqueue_message(message: Vec<u8>, origin: N) {
		E::enqueue_message(message, C::convert(origin))
	}
}
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
impl<E: EnqueueMessage<O::Type>, O: TypedGet> HandleMessage for EnqueueWithOrigin<E, O> {
	fn handle_message(message: Vec<u8>) {
		E::enqueue_message(message, O::get())
	}
}
pub struct NoopServiceQueues<O>(PhantomData<O>);
/// Has a message carried out, if what is left of the weight suffices; says whether it did.
pub trait ProcessMessage {
	type Origin;
	fn process_message(message: &[u8], origin: Self::Origin, left: &mut crate::weights::Weight) -> bool;
}
/// Whether messages from somebody have to wait for now.
pub trait QueuePausedQuery<O> {
	fn is_paused(origin: &O) -> bool;
}
impl<O> QueuePausedQuery<O> for () {
	fn is_paused(_: &O) -> bool {
		false
	}
}
pub trait QueueFootprintQuery<O> {}
pub trait WhitelistedStorageKeys {}
pub trait TrackedStorageKey {}

// ---------------------------------------------------------------- defensive helpers
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.defensive().unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		debug_assert!(self.is_some(), "defensive failure");
		self
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		debug_assert!(self.is_some(), "defensive failure: {proof}");
		self
	}
}
impl<T, E: Debug> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.defensive().unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		debug_assert!(self.is_ok(), "defensive failure");
		self
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		debug_assert!(self.is_ok(), "defensive failure: {proof}");
		self
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_ok(self) -> Option<T>;
}
impl<T, E: Debug> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		debug_assert!(self.is_ok(), "defensive failure");
		self.map_err(o)
	}
	fn defensive_ok(self) -> Option<T> {
		debug_assert!(self.is_ok(), "defensive failure");
		self.ok()
	}
}
pub trait DefensiveOption<T> {
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E>;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E> {
		debug_assert!(self.is_some(), "defensive failure");
		self.ok_or(e)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E> {
		debug_assert!(self.is_some(), "defensive failure");
		self.ok_or_else(f)
	}
}
pub trait DefensiveSaturating: Sized {
	fn defensive_saturating_add(self, r: Self) -> Self;
	fn defensive_saturating_sub(self, r: Self) -> Self;
	fn defensive_saturating_mul(self, r: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, r: Self);
	fn defensive_saturating_reduce(&mut self, r: Self);
	fn defensive_saturating_inc(&mut self);
	fn defensive_saturating_dec(&mut self);
}
impl<T: shim_base::arith::Saturating + shim_base::arith::CheckedAdd + shim_base::arith::CheckedSub + shim_base::arith::CheckedMul + shim_base::arith::One + Copy> DefensiveSaturating for T {
	fn defensive_saturating_add(self, r: Self) -> Self {
		self.checked_add(&r).defensive_unwrap_or_else(|| self.saturating_add(r))
	}
	fn defensive_saturating_sub(self, r: Self) -> Self {
		self.checked_sub(&r).defensive_unwrap_or_else(|| self.saturating_sub(r))
	}
	fn defensive_saturating_mul(self, r: Self) -> Self {
		self.checked_mul(&r).defensive_unwrap_or_else(|| self.saturating_mul(r))
	}
	fn defensive_saturating_accrue(&mut self, r: Self) {
		*self = self.defensive_saturating_add(r)
	}
	fn defensive_saturating_reduce(&mut self, r: Self) {
		*self = self.defensive_saturating_sub(r)
	}
	fn defensive_saturating_inc(&mut self) {
		self.defensive_saturating_accrue(shim_base::arith::One::one())
	}
	fn defensive_saturating_dec(&mut self) {
		self.defensive_saturating_reduce(shim_base::arith::One::one())
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
#[allow(unused)]
fn _bounds<T: Codec + EncodeLike>() {}
