pub use shim_base::bounded::BoundedVec;
pub use shim_base::primitives::*;
pub use shim_base::traits::{ConstBool, ConstI128, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet};
pub use shim_base::hashing::{blake2_128, blake2_256, twox_128, twox_64};
pub mod hashing {
	pub use shim_base::hashing::*;
}
pub mod crypto {
	pub use shim_base::primitives::{AccountId32, KeyTypeId, Pair, Public, SecretStringError};
}
pub mod bounded {
	pub use shim_base::bounded::*;
}
pub use shim_base::bounded as bounded_vec;
pub use frame_support::parameter_types;
