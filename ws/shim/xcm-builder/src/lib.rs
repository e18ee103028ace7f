//! The building blocks of cross-consensus configuration, following the originals; those whose behaviour no check
//! depends on are names only.
use core::marker::PhantomData;
use frame_support::traits::tokens::{Fortitude, Precision, Preservation};
use frame_support::traits::{fungible, fungibles, OnUnbalanced, Contains, ContainsPair, EnsureOrigin, Get, OriginTrait};
use frame_support::{ensure, traits::CallerTrait};
use parity_scale_codec::{Decode, Encode};
use shim_base::traits::{AccountIdConversion, MaybeEquivalence, TrailingZeroInput, TryConvert};
use xcm::latest::prelude::*;
use xcm_executor::traits::*;

macro_rules! names {
	($($n:ident<$($p:ident),*>;)*) => { $(pub struct $n<$($p),*>(PhantomData<($($p,)*)>);)* };
}
names! {
	LocalMint<A>;
	NonLocalMint<A>;
	IsChildSystemParachain<A>;
	WeightInfoBounds<A, B, C>;
	FixedWeightBounds<A, B, C>;
	WithUniqueTopic<A>;
	XcmFeeManagerFromComponents<A, B>;
	XcmFeeToAccount<A, B, C>;
	SendXcmFeeToAccount<A, B>;
}
/// Hands messages to the executor as from the place of their sender. Here they are written down; a message begins with the
/// weight it needs.
pub struct ProcessXcmMessage<O, E, C>(PhantomData<(O, E, C)>);
impl<O: Into<Location>, E: xcm_executor::Configured, C> frame_support::traits::ProcessMessage for ProcessXcmMessage<O, E, C> {
	type Origin = O;
	fn process_message(message: &[u8], origin: O, left: &mut frame_support::weights::Weight) -> bool {
		let Some(needs) = message.get(..8).and_then(|b| b.try_into().ok()).map(u64::from_le_bytes) else { return true };
		let Some(rest) = left.ref_time().checked_sub(needs) else { return false };
		*left = frame_support::weights::Weight::from_parts(rest, left.proof_size());
		let mut done: Vec<(Vec<u8>, Vec<u8>)> = frame_support::storage::unhashed::get(CARRIED_OUT).unwrap_or_default();
		let from: Location = origin.into();
		done.push((from.encode(), message.to_vec()));
		frame_support::storage::unhashed::put(CARRIED_OUT, &done);
		true
	}
}
/// The messages carried out so far, with the place they came from.
pub const CARRIED_OUT: &[u8] = b"messages carried out";
/// What execution can be paid in, and where the pay goes: one asset at a location, or any that is matched.
pub trait PaidIn {
	fn pays(a: &Asset) -> bool;
	/// hand over what was paid
	fn collect(a: &Asset) -> bool;
}
pub struct UsingComponents<W, L, A, C, O>(PhantomData<(W, L, A, C, O)>);
impl<W, L: Get<Location>, A, C: fungible::Balanced<A>, O: OnUnbalanced<fungible::Credit<A, C>>> PaidIn for UsingComponents<W, L, A, C, O>
where
	C::Balance: TryFrom<u128>,
{
	fn pays(a: &Asset) -> bool {
		a.id.0 == L::get() && matches!(a.fun, Fungibility::Fungible(_))
	}
	fn collect(a: &Asset) -> bool {
		match a.fun {
			Fungibility::Fungible(n) if Self::pays(a) => match n.try_into() {
				Ok(n) => {
					O::on_unbalanced(C::issue(n));
					true
				}
				Err(_) => false,
			},
			_ => false,
		}
	}
}
macro_rules! payers {
	($($($n:ident)+;)*) => { $( impl<$($n: PaidIn),+> PaidIn for ($($n,)+) {
		fn pays(a: &Asset) -> bool { false $(|| $n::pays(a))+ }
		fn collect(a: &Asset) -> bool { false $(|| $n::collect(a))+ }
	} )* };
}
payers! { A; A B; A B C; A B C D; }
pub struct FungibleAdapter<F, M, C, A, K>(PhantomData<(F, M, C, A, K)>);
impl<F: fungible::Mutate<A>, M: MatchesFungible<F::Balance>, C: ConvertLocation<A>, A: Eq + Clone, K> TransactAsset for FungibleAdapter<F, M, C, A, K> {
	fn deposit_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::mint_into(&who, amount).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("mint"))
	}
	fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(&who, amount, Preservation::Expendable, Precision::Exact, Fortitude::Polite).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("burn"))
	}
	fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location) -> Result<(), XcmError> {
		let amount = M::matches_fungible(what).ok_or(MatchError::AssetNotHandled)?;
		let from = C::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
		let to = C::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
		F::transfer(&from, &to, amount, Preservation::Expendable).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("transfer"))
	}
}
pub struct FungiblesAdapter<F, M, C, A, L, K>(PhantomData<(F, M, C, A, L, K)>);
impl<F: fungibles::Mutate<A>, M: MatchesFungibles<F::AssetId, F::Balance>, C: ConvertLocation<A>, A: Eq + Clone, L, K> TransactAsset
	for FungiblesAdapter<F, M, C, A, L, K>
{
	fn deposit_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::mint_into(id, &who, amount).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("mint"))
	}
	fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = C::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(id, &who, amount, Preservation::Expendable, Precision::Exact, Fortitude::Polite).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("burn"))
	}
	fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location) -> Result<(), XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let from = C::convert_location(from).ok_or(MatchError::AccountIdConversionFailed)?;
		let to = C::convert_location(to).ok_or(MatchError::AccountIdConversionFailed)?;
		F::transfer(id, &from, &to, amount, Preservation::Expendable).map(|_| ()).map_err(|_| XcmError::FailedToTransactAsset("transfer"))
	}
}
pub struct FrameTransactionalProcessor;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MintLocation {
	Local,
	NonLocal,
}

// account conversion
pub struct ParentIsPreset<AccountId>(PhantomData<AccountId>);
impl<AccountId: Decode + Eq + Clone> ConvertLocation<AccountId> for ParentIsPreset<AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId> {
		if location.contains_parents_only(1) {
			Some(b"Parent".using_encoded(|b| AccountId::decode(&mut TrailingZeroInput::new(b))).expect("infinite zeros"))
		} else {
			None
		}
	}
}
pub struct SiblingParachainConvertsVia<ParaId, AccountId>(PhantomData<(ParaId, AccountId)>);
impl<ParaId: From<u32> + Into<u32> + AccountIdConversion<AccountId>, AccountId: Clone> ConvertLocation<AccountId> for SiblingParachainConvertsVia<ParaId, AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId> {
		match location.unpack() {
			(1, [Parachain(id)]) => Some(ParaId::from(*id).into_account_truncating()),
			_ => None,
		}
	}
}
pub struct AccountId32Aliases<Network, AccountId>(PhantomData<(Network, AccountId)>);
impl<Network: Get<Option<NetworkId>>, AccountId: From<[u8; 32]> + Into<[u8; 32]> + Clone> ConvertLocation<AccountId> for AccountId32Aliases<Network, AccountId> {
	fn convert_location(location: &Location) -> Option<AccountId> {
		match location.unpack() {
			(0, [AccountId32 { id, network: None }]) => Some((*id).into()),
			(0, [AccountId32 { id, network }]) if *network == Network::get() => Some((*id).into()),
			_ => None,
		}
	}
}

// origin conversion
pub struct SovereignSignedViaLocation<L, O>(PhantomData<(L, O)>);
impl<L: ConvertLocation<O::AccountId>, O: OriginTrait> ConvertOrigin<O> for SovereignSignedViaLocation<L, O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		if let OriginKind::SovereignAccount = kind {
			let location = L::convert_location(&origin).ok_or(origin)?;
			Ok(O::signed(location))
		} else {
			Err(origin)
		}
	}
}
pub struct RelayChainAsNative<R, O>(PhantomData<(R, O)>);
impl<R: Get<O>, O> ConvertOrigin<O> for RelayChainAsNative<R, O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		if kind == OriginKind::Native && origin.contains_parents_only(1) {
			Ok(R::get())
		} else {
			Err(origin)
		}
	}
}
pub struct SiblingParachainAsNative<P, O>(PhantomData<(P, O)>);
impl<P: From<u32>, O: From<P>> ConvertOrigin<O> for SiblingParachainAsNative<P, O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		match (kind, origin.unpack()) {
			(OriginKind::Native, (1, [Parachain(id)])) => Ok(P::from(*id).into()),
			_ => Err(origin),
		}
	}
}
pub struct SignedAccountId32AsNative<N, O>(PhantomData<(N, O)>);
impl<N: Get<Option<NetworkId>>, O: OriginTrait> ConvertOrigin<O> for SignedAccountId32AsNative<N, O>
where
	O::AccountId: From<[u8; 32]>,
{
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		match (kind, origin.unpack()) {
			(OriginKind::Native, (0, [AccountId32 { id, network }])) if matches!(network, None) || *network == N::get() => Ok(O::signed((*id).into())),
			_ => Err(origin),
		}
	}
}
pub struct ParentAsSuperuser<O>(PhantomData<O>);
impl<O: OriginTrait> ConvertOrigin<O> for ParentAsSuperuser<O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		if kind == OriginKind::Superuser && origin.contains_parents_only(1) {
			Ok(O::root())
		} else {
			Err(origin)
		}
	}
}
pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
impl<O: OriginTrait + Clone, C: TryConvert<O, Location>> EnsureOrigin<O> for EnsureXcmOrigin<O, C>
where
	O::PalletsOrigin: PartialEq,
{
	type Success = Location;
	fn try_origin(o: O) -> Result<Location, O> {
		let o = match C::try_convert(o) {
			Ok(location) => return Ok(location),
			Err(o) => o,
		};
		// root can always represent the context
		if o.caller() == O::root().caller() {
			Ok(Location::here())
		} else {
			Err(o)
		}
	}
}
pub struct SignedToAccountId32<O, A, N>(PhantomData<(O, A, N)>);
impl<O: OriginTrait + Clone, A: Into<[u8; 32]>, N: Get<Option<NetworkId>>> TryConvert<O, Location> for SignedToAccountId32<O, A, N>
where
	O::PalletsOrigin: CallerTrait<A>,
	O: OriginTrait<AccountId = A>,
{
	fn try_convert(o: O) -> Result<Location, O> {
		match o.clone().into_signer() {
			Some(who) => Ok(Junction::AccountId32 { network: N::get(), id: who.into() }.into()),
			None => Err(o),
		}
	}
}

// assets
pub struct NativeAsset;
impl ContainsPair<Asset, Location> for NativeAsset {
	fn contains(asset: &Asset, origin: &Location) -> bool {
		asset.id.0 == *origin
	}
}
pub struct IsConcrete<T>(PhantomData<T>);
impl<T: Get<Location>> Contains<Location> for IsConcrete<T> {
	fn contains(l: &Location) -> bool {
		*l == T::get()
	}
}
impl<T: Get<Location>, B: TryFrom<u128>> MatchesFungible<B> for IsConcrete<T> {
	fn matches_fungible(a: &Asset) -> Option<B> {
		match a.fun {
			Fungibility::Fungible(amount) if a.id.0 == T::get() => amount.try_into().ok(),
			_ => None,
		}
	}
}
pub struct StartsWith<T>(PhantomData<T>);
impl<T: Get<Location>> Contains<Location> for StartsWith<T> {
	fn contains(l: &Location) -> bool {
		l.starts_with(&T::get())
	}
}
pub struct ConvertedConcreteId<A, B, CA, CB>(PhantomData<(A, B, CA, CB)>);
impl<A: Clone, B: Clone, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<A, B> for ConvertedConcreteId<A, B, CA, CB> {
	fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
		let Fungibility::Fungible(amount) = a.fun else { return Err(MatchError::AssetNotHandled) };
		let what = CA::convert(&a.id.0).ok_or(MatchError::AssetIdConversionFailed)?;
		let amount = CB::convert(&amount).ok_or(MatchError::AmountToBalanceConversionFailed)?;
		Ok((what, amount))
	}
}
pub struct MatchedConvertedConcreteId<A, B, M, CA, CB>(PhantomData<(A, B, M, CA, CB)>);
impl<A: Clone, B: Clone, M: Contains<Location>, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<A, B>
	for MatchedConvertedConcreteId<A, B, M, CA, CB>
{
	fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
		match (&a.fun, &a.id.0) {
			(Fungibility::Fungible(amount), id) if M::contains(id) => Ok((
				CA::convert(id).ok_or(MatchError::AssetIdConversionFailed)?,
				CB::convert(amount).ok_or(MatchError::AmountToBalanceConversionFailed)?,
			)),
			_ => Err(MatchError::AssetNotHandled),
		}
	}
}

// barriers
const MAX_ASSETS_FOR_BUY_EXECUTION: usize = 2;
pub struct TakeWeightCredit;
impl ShouldExecute for TakeWeightCredit {
	fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError> {
		properties.weight_credit = properties.weight_credit.checked_sub(&max_weight).ok_or(ProcessMessageError::Overweight(max_weight))?;
		Ok(())
	}
}
pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
	fn should_execute<Call>(origin: &Location, instructions: &mut [Instruction<Call>], max_weight: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		ensure!(T::contains(origin), ProcessMessageError::Unsupported);
		let end = instructions.len().min(5);
		let mut it = instructions[..end].iter_mut().peekable();
		match it.next().ok_or(ProcessMessageError::BadFormat)? {
			ReceiveTeleportedAsset(assets) | ReserveAssetDeposited(assets) | WithdrawAsset(assets) | ClaimAsset { assets, .. }
				if assets.len() <= MAX_ASSETS_FOR_BUY_EXECUTION => {}
			_ => return Err(ProcessMessageError::BadFormat),
		}
		while matches!(it.peek(), Some(ClearOrigin)) {
			it.next();
		}
		match it.next().ok_or(ProcessMessageError::BadFormat)? {
			BuyExecution { weight_limit: Limited(weight), .. } if weight.all_gte(max_weight) => {
				*weight = max_weight;
				Ok(())
			}
			BuyExecution { weight_limit, .. } if *weight_limit == Unlimited => {
				*weight_limit = Limited(max_weight);
				Ok(())
			}
			_ => Err(ProcessMessageError::Overweight(max_weight)),
		}
	}
}
pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowUnpaidExecutionFrom<T> {
	fn should_execute<Call>(origin: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		ensure!(T::contains(origin), ProcessMessageError::Unsupported);
		Ok(())
	}
}
pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
	fn should_execute<Call>(origin: &Location, instructions: &mut [Instruction<Call>], max_weight: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		ensure!(T::contains(origin), ProcessMessageError::Unsupported);
		match instructions.first().ok_or(ProcessMessageError::BadFormat)? {
			UnpaidExecution { weight_limit: Limited(m), .. } if m.all_gte(max_weight) => Ok(()),
			UnpaidExecution { weight_limit: Unlimited, .. } => Ok(()),
			_ => Err(ProcessMessageError::Overweight(max_weight)),
		}
	}
}
pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
impl<T> ShouldExecute for AllowSubscriptionsFrom<T> {
	fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		Err(ProcessMessageError::BadFormat)
	}
}
pub struct AllowKnownQueryResponses<T>(PhantomData<T>);
impl<T> ShouldExecute for AllowKnownQueryResponses<T> {
	fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		Err(ProcessMessageError::BadFormat)
	}
}
pub struct WithComputedOrigin<B, U, M>(PhantomData<(B, U, M)>);
impl<B: ShouldExecute, U: Get<InteriorLocation>, M: Get<u32>> ShouldExecute for WithComputedOrigin<B, U, M> {
	fn should_execute<Call>(origin: &Location, instructions: &mut [Instruction<Call>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError> {
		let mut actual_origin = origin.clone();
		let mut skipped = 0usize;
		for i in instructions.iter() {
			if skipped >= M::get() as usize {
				break;
			}
			match i {
				UniversalOrigin(new_global) => {
					// origin moves to a global consensus system
					actual_origin = Junctions::from([*new_global]).relative_to(&U::get());
				}
				DescendOrigin(j) => {
					for x in j.iter() {
						actual_origin.push_interior(*x).map_err(|_| ProcessMessageError::Unsupported)?;
					}
				}
				_ => break,
			}
			skipped += 1;
		}
		B::should_execute(&actual_origin, &mut instructions[skipped..], max_weight, properties)
	}
}

pub struct NoChecking;
pub struct Equals<T>(PhantomData<T>);
impl<T: Get<Location>> Contains<Location> for Equals<T> {
	fn contains(l: &Location) -> bool {
		*l == T::get()
	}
}
/// An account elsewhere may act as the account of the same name here.
pub struct AliasForeignAccountId32<P>(PhantomData<P>);
impl<P: Contains<Location>> ContainsPair<Location, Location> for AliasForeignAccountId32<P> {
	fn contains(origin: &Location, target: &Location) -> bool {
		match origin.clone().split_last_interior() {
			(prefix, Some(account @ AccountId32 { .. })) => P::contains(&prefix) && *target == Location::new(0, [account]),
			_ => false,
		}
	}
}
pub struct TrailingSetTopicAsId<B>(PhantomData<B>);
impl<B: ShouldExecute> ShouldExecute for TrailingSetTopicAsId<B> {
	fn should_execute<Call>(origin: &Location, instructions: &mut [Instruction<Call>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError> {
		let until = match instructions.last() {
			Some(SetTopic(t)) => {
				properties.message_id = Some(*t);
				instructions.len() - 1
			}
			_ => instructions.len(),
		};
		B::should_execute(origin, &mut instructions[..until], max_weight, properties)
	}
}
pub struct DenyThenTry<D, A>(PhantomData<(D, A)>);
impl<D: ShouldExecute, A: ShouldExecute> ShouldExecute for DenyThenTry<D, A> {
	fn should_execute<Call>(origin: &Location, instructions: &mut [Instruction<Call>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError> {
		D::should_execute(origin, instructions, max_weight, properties)?;
		A::should_execute(origin, instructions, max_weight, properties)
	}
}
pub trait DescribeLocation {
	fn describe_location(location: &Location) -> Option<Vec<u8>>;
}
pub struct DescribeTerminus;
impl DescribeLocation for DescribeTerminus {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		l.is_here().then(Vec::new)
	}
}
pub struct DescribeAccountId32Terminal;
impl DescribeLocation for DescribeAccountId32Terminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [AccountId32 { id, .. }]) => Some((b"AccountId32", id).encode()),
			_ => None,
		}
	}
}
pub struct DescribePalletTerminal;
impl DescribeLocation for DescribePalletTerminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [PalletInstance(i)]) => Some((b"Pallet", parity_scale_codec::Compact(u32::from(*i))).encode()),
			_ => None,
		}
	}
}
macro_rules! describe {
	($($($n:ident)+;)*) => { $(
		impl<$($n: DescribeLocation),+> DescribeLocation for ($($n,)+) {
			fn describe_location(l: &Location) -> Option<Vec<u8>> {
				$( if let Some(d) = $n::describe_location(l) { return Some(d) } )+
				None
			}
		}
	)* };
}
describe! { A; A B; A B C; A B C D; A B C D E; }
pub type DescribeAllTerminal = (DescribeTerminus, DescribePalletTerminal, DescribeAccountId32Terminal);
/// Whatever a relative of this chain says about a location below it.
pub struct DescribeFamily<D>(PhantomData<D>);
impl<D: DescribeLocation> DescribeLocation for DescribeFamily<D> {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		let below = |l: &Location| D::describe_location(&Location { parents: 0, interior: l.clone().split_first_interior().0.interior });
		match (l.parents, l.first_interior()) {
			(0, Some(Parachain(i))) => Some((b"ChildChain", parity_scale_codec::Compact(*i), below(l)?).encode()),
			(1, Some(Parachain(i))) => Some((b"SiblingChain", parity_scale_codec::Compact(*i), below(l)?).encode()),
			(1, _) => Some((b"ParentChain", D::describe_location(&Location { parents: 0, interior: l.interior.clone() })?).encode()),
			_ => None,
		}
	}
}
pub struct HashedDescription<AccountId, D>(PhantomData<(AccountId, D)>);
impl<AccountId: From<[u8; 32]> + Clone, D: DescribeLocation> ConvertLocation<AccountId> for HashedDescription<AccountId, D> {
	fn convert_location(l: &Location) -> Option<AccountId> {
		Some(shim_base::hashing::blake2_256(&D::describe_location(l)?).into())
	}
}
