//! BoundedVec and friends.
use crate::codec::{Compact, Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen};
use crate::scale_info::{Type, TypeInfo};
use crate::traits::Get;
use std::marker::PhantomData;
use std::ops::Deref;

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<fn() -> S>);

impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn size_hint(&self) -> usize {
		self.0.size_hint()
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		self.0.using_encoded(f)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(input)?;
		Self::try_from(v).map_err(|_| "BoundedVec exceeds its limit".into())
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encode().len() + (S::get() as usize).saturating_mul(T::max_encoded_len())
	}
}
impl<T: 'static, S: 'static> TypeInfo for BoundedVec<T, S> {
	type Identity = Self;
	fn type_info() -> Type {
		crate::scale_info::TypeDefPrimitive::Str.into()
	}
}
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> {
	fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
		self.0.serialize(z)
	}
}
impl<'de, T: serde::Deserialize<'de>, S> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		Ok(Self(Vec::<T>::deserialize(d)?, PhantomData))
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> {
	fn eq(&self, o: &BoundedVec<T, S2>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		&self.0 == o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T: std::hash::Hash, S> std::hash::Hash for BoundedVec<T, S> {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}
impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "BoundedVec({:?})", self.0)
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self(vec![], PhantomData)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self(v, PhantomData))
		} else {
			Err(v)
		}
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.0
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<T, S> BoundedVec<T, S> {
	pub const fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn retain(&mut self, f: impl FnMut(&T) -> bool) {
		self.0.retain(f)
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn with_bounded_capacity(n: usize) -> Self {
		Self(Vec::with_capacity(n.min(Self::bound())), PhantomData)
	}
	pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if self.0.len().saturating_add(with.len()) > Self::bound() {
			return Err(());
		}
		self.0.extend(with);
		Ok(())
	}
	pub fn try_append(&mut self, other: &mut Vec<T>) -> Result<(), ()> {
		if other.len().saturating_add(self.0.len()) > Self::bound() {
			return Err(());
		}
		self.0.append(other);
		Ok(())
	}
	pub fn try_mutate(mut self, f: impl FnOnce(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self(v, PhantomData)
	}
	pub fn force_from(v: Vec<T>, _: Option<&'static str>) -> Self {
		Self(v, PhantomData)
	}
	pub fn force_push(&mut self, t: T) {
		self.0.push(t)
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
}
pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;

/// `BoundedSlice`-free: fixed arrays of bytes from a string.
pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
	let bytes = s.as_bytes();
	if bytes.len() > N {
		panic!("str_array: string too long")
	}
	let mut out = [0u8; N];
	let mut i = 0;
	while i < bytes.len() {
		out[i] = bytes[i];
		i += 1;
	}
	out
}
