//! What a pallet contributes to the runtime's aggregate types.
use crate::Never;
use parity_scale_codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use std::fmt;
use std::marker::PhantomData;

pub enum KindCall {}
pub enum KindEvent {}
pub enum KindOrigin {}
pub enum KindHoldReason {}
pub enum KindFreezeReason {}

/// A part the pallet does not have: no value of it exists.
pub struct Nothing<P, K>(Never, PhantomData<fn() -> (P, K)>);
impl<P, K> Clone for Nothing<P, K> {
	fn clone(&self) -> Self {
		*self
	}
}
impl<P, K> Copy for Nothing<P, K> {}
impl<P, K> PartialEq for Nothing<P, K> {
	fn eq(&self, _: &Self) -> bool {
		match self.0 {}
	}
}
impl<P, K> Eq for Nothing<P, K> {}
impl<P, K> fmt::Debug for Nothing<P, K> {
	fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self.0 {}
	}
}
impl<P, K> Encode for Nothing<P, K> {
	fn encode_to<T: Output + ?Sized>(&self, _: &mut T) {
		match self.0 {}
	}
}
impl<P, K> EncodeLike for Nothing<P, K> {}
impl<P, K> Decode for Nothing<P, K> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, parity_scale_codec::Error> {
		Err("no such value".into())
	}
}
impl<P, K> MaxEncodedLen for Nothing<P, K> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<P: 'static, K: 'static> scale_info::TypeInfo for Nothing<P, K> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		scale_info::TypeDefPrimitive::U8.into()
	}
}
impl<P, K> crate::traits::VariantCount for Nothing<P, K> {
	const VARIANT_COUNT: u32 = 0;
}
