//! The part of `frame_support` the code under test uses, over an in-memory store.
extern crate self as frame_support;

pub mod dispatch;
pub mod extension;
pub mod parts;
pub mod storage;
pub mod traits;
pub mod weights;
#[macro_use]
mod macros;

pub use frame_support_procedural::{
	derive_impl, pallet, require_transactional, runtime, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebug,
	RuntimeDebugNoBound,
};
pub use shim_base::bounded::{BoundedVec, WeakBoundedVec};
pub use shim_base::traits::Parameter;
pub use shim_base::runtime::LookupError;
pub use storage::types::{
	CountedStorageMap, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery,
};
pub use log;
pub use shim_base::bounded as bounded_vec;
pub mod defensive_prelude {
	pub use crate::traits::{Defensive, DefensiveOption, DefensiveResult};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo, Ord, PartialOrd, Hash)]
pub enum Never {}
impl parity_scale_codec::MaxEncodedLen for Never {
	fn max_encoded_len() -> usize {
		0
	}
}

/// A pallet's account seed.
#[derive(Clone, Copy, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo, parity_scale_codec::MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);
impl shim_base::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

macro_rules! hashers {
	($($n:ident),*) => { $(#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n;)* };
}
hashers!(Blake2_128Concat, Blake2_128, Blake2_256, Twox64Concat, Twox128, Twox256, Identity);
pub mod pallet_hashers {}
pub trait StorageHasher {}

pub mod instances {
	macro_rules! inst {
		($($n:ident),*) => { $(
			#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, scale_info::TypeInfo, parity_scale_codec::Encode, parity_scale_codec::Decode)]
			pub struct $n;
		)* };
	}
	inst!(Instance1, Instance2, Instance3, Instance4, Instance5, Instance6, Instance7, Instance8, Instance9, Instance10);
}

pub mod genesis_builder_helper {
	pub fn build_state() {}
	pub fn get_preset() {}
}
pub mod pallet_prelude {
	pub use crate::dispatch::{
		DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Dispatchable, Parameter, Pays, PostDispatchInfo, RawOrigin as _,
	};
	pub use crate::storage::types::{
		CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery,
	};
	pub use crate::storage::bounded_vec::BoundedVec;
	pub use crate::traits::{
		BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInstance, StorageVersion,
		Task, TypedGet,
	};
	pub use crate::weights::Weight;
	pub use crate::{
		ensure, Blake2_128, Blake2_128Concat, Blake2_256, CloneNoBound, DebugNoBound, EqNoBound, Identity, PartialEqNoBound, RuntimeDebugNoBound,
		Twox128, Twox256, Twox64Concat, RuntimeDebug,
	};
	pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use shim_base::traits::{MaybeSerializeDeserialize, Member};
	pub use std::marker::PhantomData;
	pub use std::{vec, vec::Vec, boxed::Box};
	pub use shim_base::runtime::{ArithmeticError, TokenError};
}

pub mod __private {
	pub use log;
	pub use parity_scale_codec as codec;
	pub use scale_info;
	pub use serde;
	pub use shim_base::ext::TestExternalities;
	pub use shim_base::primitives::{AccountId32, H256};
	pub use shim_base::runtime::{BuildStorage, DispatchError, DispatchResult, ModuleError, Storage};
	pub use shim_base::traits::{AccountIdLookup, AsSystemOriginSigner, BlakeTwo256, Dispatchable, IdentityLookup};
	pub use std::*;
}
