//! The traits through which a runtime configures cross-consensus execution. The executor itself is not modelled.
use core::marker::PhantomData;
use xcm::latest::prelude::*;

pub struct XcmExecutor<Config>(PhantomData<Config>);
pub trait Config {
	type RuntimeCall;
	type XcmSender;
	type AssetTransactor;
	type OriginConverter;
	type IsReserve;
	type IsTeleporter;
	type Aliasers;
	type UniversalLocation;
	type Barrier;
	type Weigher;
	type Trader;
	type ResponseHandler;
	type AssetTrap;
	type AssetLocker;
	type AssetExchanger;
	type AssetClaims;
	type SubscriptionService;
	type PalletInstancesInfo;
	type MaxAssetsIntoHolding;
	type FeeManager;
	type MessageExporter;
	type UniversalAliases;
	type CallDispatcher;
	type SafeCallFilter;
	type TransactionalProcessor;
	type HrmpNewChannelOpenRequestHandler;
	type HrmpChannelAcceptedHandler;
	type HrmpChannelClosingHandler;
	type XcmRecorder;
}
/// The configuration an executor runs with.
pub trait Configured {
	type Config: Config;
}
impl<C: Config> Configured for XcmExecutor<C> {
	type Config = C;
}
pub mod traits {
	use super::*;
	/// Names only: what a message calls is dispatched as by its origin.
	pub struct WithOriginFilter<F>(PhantomData<F>);
	pub trait ConvertLocation<AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId>;
	}
	pub trait ConvertOrigin<Origin> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<Origin, Location>;
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum ProcessMessageError {
		BadFormat,
		Corrupt,
		Unsupported,
		Overweight(Weight),
		Yield,
		StackLimitReached,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Properties {
		pub weight_credit: Weight,
		pub message_id: Option<XcmHash>,
	}
	pub trait ShouldExecute {
		fn should_execute<Call>(
			origin: &Location,
			instructions: &mut [Instruction<Call>],
			max_weight: Weight,
			properties: &mut Properties,
		) -> Result<(), ProcessMessageError>;
	}
	macro_rules! tuples {
		($($($n:ident)+;)*) => { $(
			impl<Ac, $($n: ConvertLocation<Ac>),+> ConvertLocation<Ac> for ($($n,)+) {
				fn convert_location(l: &Location) -> Option<Ac> {
					$( if let Some(r) = $n::convert_location(l) { return Some(r) } )+
					None
				}
			}
			impl<Or, $($n: ConvertOrigin<Or>),+> ConvertOrigin<Or> for ($($n,)+) {
				fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<Or, Location> {
					let origin = origin.into();
					$( let origin = match $n::convert_origin(origin, kind) { Err(o) => o, r => return r }; )+
					Err(origin)
				}
			}
			impl<$($n: ShouldExecute),+> ShouldExecute for ($($n,)+) {
				fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
					let mut last = ProcessMessageError::Unsupported;
					$( match $n::should_execute(o, i, w, p) { Ok(()) => return Ok(()), Err(e) => last = e } )+
					Err(last)
				}
			}
		)* };
	}
	tuples! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; }
	/// Moving assets between the ledgers of this chain and the outside.
	pub trait TransactAsset {
		fn deposit_asset(_what: &Asset, _who: &Location) -> Result<(), XcmError> {
			Err(XcmError::Unimplemented)
		}
		fn withdraw_asset(_what: &Asset, _who: &Location) -> Result<(), XcmError> {
			Err(XcmError::Unimplemented)
		}
		fn internal_transfer_asset(_what: &Asset, _from: &Location, _to: &Location) -> Result<(), XcmError> {
			Err(XcmError::Unimplemented)
		}
	}
	macro_rules! transactors {
		($($($n:ident)+;)*) => { $(
			impl<$($n: TransactAsset),+> TransactAsset for ($($n,)+) {
				fn deposit_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
					$( match $n::deposit_asset(what, who) { Err(XcmError::AssetNotFound | XcmError::Unimplemented) => (), r => return r } )+
					Err(XcmError::AssetNotFound)
				}
				fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), XcmError> {
					$( match $n::withdraw_asset(what, who) { Err(XcmError::AssetNotFound | XcmError::Unimplemented) => (), r => return r } )+
					Err(XcmError::AssetNotFound)
				}
				fn internal_transfer_asset(what: &Asset, from: &Location, to: &Location) -> Result<(), XcmError> {
					$( match $n::internal_transfer_asset(what, from, to) { Err(XcmError::AssetNotFound | XcmError::Unimplemented) => (), r => return r } )+
					Err(XcmError::AssetNotFound)
				}
			}
		)* };
	}
	transactors! { A; A B; A B C; A B C D; A B C D E; }
	impl From<MatchError> for XcmError {
		fn from(e: MatchError) -> XcmError {
			match e {
				MatchError::AssetNotHandled => XcmError::AssetNotFound,
				MatchError::AccountIdConversionFailed => XcmError::FailedToTransactAsset("AccountIdConversionFailed"),
				MatchError::AmountToBalanceConversionFailed => XcmError::FailedToTransactAsset("AmountToBalanceConversionFailed"),
				MatchError::AssetIdConversionFailed => XcmError::FailedToTransactAsset("AssetIdConversionFailed"),
				MatchError::InstanceConversionFailed => XcmError::FailedToTransactAsset("InstanceConversionFailed"),
			}
		}
	}
	pub trait MatchesFungible<Balance> {
		fn matches_fungible(a: &Asset) -> Option<Balance>;
	}
	pub trait MatchesFungibles<AssetId, Balance> {
		fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), MatchError>;
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum MatchError {
		AssetNotHandled,
		AccountIdConversionFailed,
		AmountToBalanceConversionFailed,
		AssetIdConversionFailed,
		InstanceConversionFailed,
	}
	pub use MatchError as Error;
	pub struct JustTry;
	impl<A: TryFrom<B> + Clone, B: TryFrom<A> + Clone> shim_base::traits::MaybeEquivalence<A, B> for JustTry {
		fn convert(a: &A) -> Option<B> {
			B::try_from(a.clone()).ok()
		}
		fn convert_back(b: &B) -> Option<A> {
			A::try_from(b.clone()).ok()
		}
	}
}
