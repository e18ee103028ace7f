use crate::dispatch::{DispatchResultWithPostInfo, RawOrigin};
use crate::weights::Weight;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
pub use shim_base::bounded::BoundedVec;
use shim_base::runtime::{DispatchError, DispatchResult};
pub use shim_base::traits::{
	BadOrigin, BlockNumberProvider, ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8,
	Convert, Get, GetDefault, IdentifyAccount, IsType, Member, Morph, Parameter, TryMorph, TypedGet, VariantCount, VariantCountOf,
};
use std::fmt::Debug;
use std::marker::PhantomData;

pub mod fungible;
pub mod fungibles;
mod misc;
pub mod preimages;
pub mod schedule;
pub mod tokens;
pub use misc::*;
pub use preimages::{Bounded, BoundedInline, FetchResult, QueryPreimage, StorePreimage};
pub use tokens::imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop};
pub use tokens::currency::{self, *};
pub use tokens::{nonfungible_v2, nonfungibles_v2, BalanceStatus};
pub use crate::storage::StorageInstance;

/// Digest of the store, for `assert_noop!`.
pub fn root_hash() -> Vec<(Vec<u8>, Vec<u8>)> {
	shim_base::ext::scan(&[])
}
