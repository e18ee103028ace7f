use crate::traits::ConstU32;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::bounded::BoundedVec;
use shim_base::primitives::H256;
use shim_base::runtime::DispatchError;
use shim_base::traits::Hash;
use std::borrow::Cow;
use std::marker::PhantomData;

pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
pub type FetchResult = Result<Cow<'static, [u8]>, DispatchError>;

/// A call kept inline when its encoding fits 128 bytes, by hash otherwise.
#[derive(Encode, Decode)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub enum Bounded<T, H: Hash> {
	Legacy { hash: H::Output, dummy: PhantomData<T> },
	Inline(BoundedInline),
	Lookup { hash: H::Output, len: u32 },
}
impl<T, H: Hash> Clone for Bounded<T, H> {
	fn clone(&self) -> Self {
		match self {
			Bounded::Legacy { hash, .. } => Bounded::Legacy { hash: hash.clone(), dummy: PhantomData },
			Bounded::Inline(i) => Bounded::Inline(i.clone()),
			Bounded::Lookup { hash, len } => Bounded::Lookup { hash: hash.clone(), len: *len },
		}
	}
}
impl<T, H: Hash> PartialEq for Bounded<T, H> {
	fn eq(&self, o: &Self) -> bool {
		self.encode() == o.encode()
	}
}
impl<T, H: Hash> Eq for Bounded<T, H> {}
impl<T, H: Hash> std::fmt::Debug for Bounded<T, H> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Bounded::Legacy { .. } => write!(f, "Legacy"),
			Bounded::Inline(i) => write!(f, "Inline({:?})", i.as_slice()),
			Bounded::Lookup { len, .. } => write!(f, "Lookup({len})"),
		}
	}
}
impl<T, H: Hash> MaxEncodedLen for Bounded<T, H> {
	fn max_encoded_len() -> usize {
		131
	}
}
impl<T: 'static, H: Hash + 'static> TypeInfo for Bounded<T, H> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		scale_info::TypeDefPrimitive::U8.into()
	}
}
impl<T, H: Hash> Bounded<T, H> {
	pub fn transmute<S: Encode>(self) -> Bounded<S, H> {
		match self {
			Bounded::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: PhantomData },
			Bounded::Inline(i) => Bounded::Inline(i),
			Bounded::Lookup { hash, len } => Bounded::Lookup { hash, len },
		}
	}
	pub fn hash(&self) -> H::Output {
		match self {
			Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => hash.clone(),
			Bounded::Inline(x) => H::hash(x),
		}
	}
	pub fn lookup_hash(&self) -> Option<H::Output> {
		match self {
			Bounded::Lookup { hash, .. } | Bounded::Legacy { hash, .. } => Some(hash.clone()),
			Bounded::Inline(_) => None,
		}
	}
	pub fn len(&self) -> Option<u32> {
		match self {
			Bounded::Legacy { .. } => None,
			Bounded::Inline(i) => Some(i.len() as u32),
			Bounded::Lookup { len, .. } => Some(*len),
		}
	}
	pub fn lookup_needed(&self) -> bool {
		!matches!(self, Bounded::Inline(_))
	}
	pub fn lookup_len(&self) -> Option<u32> {
		match self {
			Bounded::Lookup { len, .. } => Some(*len),
			_ => None,
		}
	}
}
pub trait QueryPreimage {
	type H: Hash;
	fn len(hash: &<Self::H as Hash>::Output) -> Option<u32>;
	fn fetch(hash: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult;
	fn is_requested(hash: &<Self::H as Hash>::Output) -> bool;
	fn request(hash: &<Self::H as Hash>::Output);
	fn unrequest(hash: &<Self::H as Hash>::Output);
	fn hold<T>(b: &Bounded<T, Self::H>) {
		if let Some(h) = b.lookup_hash() {
			Self::request(&h)
		}
	}
	fn drop<T>(b: &Bounded<T, Self::H>) {
		if let Some(h) = b.lookup_hash() {
			Self::unrequest(&h)
		}
	}
	fn have<T>(b: &Bounded<T, Self::H>) -> bool {
		match b {
			Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => Self::len(hash).is_some(),
			Bounded::Inline(_) => true,
		}
	}
	fn peek<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		let (d, size) = match b {
			Bounded::Inline(data) => (Cow::Owned(data.to_vec()), None),
			Bounded::Lookup { hash, len } => (Self::fetch(hash, Some(*len))?, Some(*len)),
			Bounded::Legacy { hash, .. } => {
				let d = Self::fetch(hash, None)?;
				let l = d.len() as u32;
				(d, Some(l))
			}
		};
		Ok((T::decode(&mut &d[..]).map_err(|_| DispatchError::Corruption)?, size))
	}
	fn realize<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		let r = Self::peek(b)?;
		Self::drop(b);
		Ok(r)
	}
	fn pick<T>(hash: <Self::H as Hash>::Output, len: u32) -> Bounded<T, Self::H> {
		Self::request(&hash);
		Bounded::Lookup { hash, len }
	}
}
pub trait StorePreimage: QueryPreimage {
	const MAX_LENGTH: usize;
	fn note(bytes: Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>;
	fn unnote(hash: &<Self::H as Hash>::Output) {
		Self::unrequest(hash)
	}
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
		let data = t.encode();
		let len = data.len() as u32;
		Ok(match BoundedInline::try_from(data) {
			Ok(b) => Bounded::Inline(b),
			Err(u) => Bounded::Lookup { hash: Self::note(Cow::Owned(u))?, len },
		})
	}
}
impl QueryPreimage for () {
	type H = shim_base::traits::BlakeTwo256;
	fn len(_: &H256) -> Option<u32> {
		None
	}
	fn fetch(_: &H256, _: Option<u32>) -> FetchResult {
		Err(DispatchError::Unavailable)
	}
	fn is_requested(_: &H256) -> bool {
		false
	}
	fn request(_: &H256) {}
	fn unrequest(_: &H256) {}
}
impl StorePreimage for () {
	const MAX_LENGTH: usize = 1 << 22;
	fn note(_: Cow<[u8]>) -> Result<H256, DispatchError> {
		Err(DispatchError::Exhausted)
	}
}
