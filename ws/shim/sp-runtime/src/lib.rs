pub use shim_base::arith::{PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding, SaturatedConversion, Saturating};
pub use shim_base::bounded::{str_array, BoundedVec, WeakBoundedVec};
pub use shim_base::fixed::{FixedI64, FixedPointNumber, FixedU128};
pub use shim_base::morph_types;
pub use shim_base::primitives::{AccountId32, KeyTypeId};
pub use shim_base::runtime::*;
pub use shim_base::hashing;
pub use shim_base::traits::{self, TypeId};
pub mod app_crypto {
	pub use shim_base::primitives::*;
}
pub mod create_runtime_str_mod {}
#[macro_export]
macro_rules! create_runtime_str {
	($s:expr) => {
		std::borrow::Cow::Borrowed($s)
	};
}
pub mod transaction_validity {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionSource { InBlock, Local, External }
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, Custom(u8), BadSigner }
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown }
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct ValidTransaction { pub priority: u64 }
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
}
pub use frame_support_procedural::RuntimeDebug;
pub enum ExtrinsicInclusionMode { AllExtrinsics, OnlyInherents }
#[macro_export]
macro_rules! impl_opaque_keys {
	($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$f:meta])* $fv:vis $k:ident : $t:ty),* $(,)? }) => {
		$(#[$m])* $v struct $n;
		impl $crate::traits::OpaqueKeys for $n {
			type KeyTypeIdProviders = ($($t,)*);
		}
	};
}
