//! Cross-consensus messages sent by this chain: the origin and the guards a runtime configures.
use core::marker::PhantomData;
use frame_support::traits::{Contains, EnsureOrigin, Get};
use frame_support::PalletId;
use shim_base::traits::AccountIdConversion;
use xcm::latest::prelude::*;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type SendXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type ExecuteXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type XcmRouter;
		type XcmExecuteFilter;
		type XcmExecutor;
		type XcmTeleportFilter;
		type XcmReserveTransferFilter;
		type Weigher;
		type UniversalLocation;
		type RuntimeOrigin;
		type RuntimeCall;
		const VERSION_DISCOVERY_QUEUE_SIZE: u32;
		type AdvertisedXcmVersion;
		type Currency;
		type CurrencyMatcher;
		type TrustedLockers;
		type SovereignAccountOf;
		type MaxLockers;
		type WeightInfo;
		type AdminOrigin;
		type MaxRemoteLockConsumers;
		type RemoteLockConsumerIdentifier;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		/// It comes from somewhere in the XCM space wanting to transact.
		Xcm(Location),
		/// It comes as an expected response from an XCM location.
		Response(Location),
	}
	impl From<Location> for Origin {
		fn from(l: Location) -> Self {
			Origin::Xcm(l)
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		pub fn send(origin: OriginFor<T>, dest: Box<Location>, message: Vec<u8>) -> DispatchResult {
			let _ = (T::SendXcmOrigin::ensure_origin(origin)?, dest, message);
			Err("not modelled".into())
		}
		#[pallet::call_index(3)]
		pub fn execute(origin: OriginFor<T>, message: Vec<u8>) -> DispatchResult {
			let _ = (T::ExecuteXcmOrigin::ensure_origin(origin)?, message);
			Err("not modelled".into())
		}
		#[pallet::call_index(8)]
		pub fn limited_reserve_transfer_assets(origin: OriginFor<T>, dest: Box<Location>, beneficiary: Box<Location>) -> DispatchResult {
			let _ = (T::ExecuteXcmOrigin::ensure_origin(origin)?, dest, beneficiary);
			Err("not modelled".into())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn check_account() -> T::AccountId {
		const ID: PalletId = PalletId(*b"py/xcmch");
		AccountIdConversion::<T::AccountId>::into_account_truncating(&ID)
	}
}
pub struct CurrentXcmVersion;
pub struct TestWeightInfo;
pub struct EnsureXcm<F, L = Location>(PhantomData<(F, L)>);
impl<O: From<Origin> + Into<Result<Origin, O>>, F: Contains<Location>> EnsureOrigin<O> for EnsureXcm<F> {
	type Success = Location;
	fn try_origin(outer: O) -> Result<Location, O> {
		outer.into().and_then(|o| match o {
			Origin::Xcm(l) if F::contains(&l) => Ok(l),
			o => Err(o.into()),
		})
	}
}
pub struct IsVoiceOfBody<Prefix, Body>(PhantomData<(Prefix, Body)>);
impl<Prefix: Get<Location>, Body: Get<BodyId>> Contains<Location> for IsVoiceOfBody<Prefix, Body> {
	fn contains(l: &Location) -> bool {
		l.match_and_split(&Prefix::get()) == Some(&Plurality { id: Body::get(), part: BodyPart::Voice })
	}
}
pub struct IsMajorityOfBody<Prefix, Body>(PhantomData<(Prefix, Body)>);
impl<Prefix: Get<Location>, Body: Get<BodyId>> Contains<Location> for IsMajorityOfBody<Prefix, Body> {
	fn contains(l: &Location) -> bool {
		matches!(l.match_and_split(&Prefix::get()), Some(Plurality { id, part }) if *id == Body::get() && part.is_majority())
	}
}
pub struct XcmPassthrough<O>(PhantomData<O>);
impl<O: From<Origin>> xcm_executor::traits::ConvertOrigin<O> for XcmPassthrough<O> {
	fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let origin = origin.into();
		match kind {
			OriginKind::Xcm => Ok(Origin::Xcm(origin).into()),
			_ => Err(origin),
		}
	}
}
