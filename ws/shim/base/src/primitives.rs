//! `sp_core`.
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::TypeInfo;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct H256(pub [u8; 32]);
impl H256 {
	pub const fn zero() -> Self {
		H256([0; 32])
	}
	pub const fn repeat_byte(b: u8) -> Self {
		H256([b; 32])
	}
	pub fn from_slice(s: &[u8]) -> Self {
		H256(s.try_into().expect("32 bytes"))
	}
	pub fn from_low_u64_be(n: u64) -> Self {
		let mut b = [0; 32];
		b[24..].copy_from_slice(&n.to_be_bytes());
		H256(b)
	}
	pub const fn to_fixed_bytes(self) -> [u8; 32] {
		self.0
	}
	pub const fn as_fixed_bytes(&self) -> &[u8; 32] {
		&self.0
	}
	pub fn as_bytes(&self) -> &[u8] {
		&self.0
	}
}
impl fmt::Debug for H256 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		for b in &self.0 {
			write!(f, "{b:02x}")?
		}
		Ok(())
	}
}
impl fmt::Display for H256 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl AsRef<[u8]> for H256 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsMut<[u8]> for H256 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl From<[u8; 32]> for H256 {
	fn from(b: [u8; 32]) -> Self {
		H256(b)
	}
}
impl From<H256> for [u8; 32] {
	fn from(b: H256) -> Self {
		b.0
	}
}
impl TryFrom<Vec<u8>> for H256 {
	type Error = Vec<u8>;
	fn try_from(v: Vec<u8>) -> Result<Self, Vec<u8>> {
		v.try_into().map(H256)
	}
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(b: [u8; 32]) -> Self {
		Self(b)
	}
}
impl fmt::Debug for AccountId32 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		if self.0[1..].iter().all(|b| *b == self.0[0]) {
			return write!(f, "acc[{:02x};32]", self.0[0]);
		}
		write!(f, "acc:")?;
		let n = 32 - self.0.iter().rev().take_while(|b| **b == 0).count();
		for b in &self.0[..n] {
			write!(f, "{b:02x}")?
		}
		Ok(())
	}
}
impl fmt::Display for AccountId32 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(b: [u8; 32]) -> Self {
		Self(b)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(a: AccountId32) -> [u8; 32] {
		a.0
	}
}
impl From<H256> for AccountId32 {
	fn from(h: H256) -> Self {
		Self(h.0)
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
impl AsMut<[u8]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl TryFrom<&[u8]> for AccountId32 {
	type Error = ();
	fn try_from(x: &[u8]) -> Result<Self, ()> {
		x.try_into().map(Self).map_err(|_| ())
	}
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default, Encode, Decode, TypeInfo)]
pub struct KeyTypeId(pub [u8; 4]);

macro_rules! crypto {
	($m:ident, $p:expr, $s:expr) => {
		pub mod $m {
			use super::*;
			#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
			pub struct Public(pub [u8; $p]);
			#[derive(Clone, PartialEq, Eq, Hash, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
			pub struct Signature(pub [u8; $s]);
			impl AsRef<[u8]> for Public {
				fn as_ref(&self) -> &[u8] {
					&self.0
				}
			}
			impl serde::Serialize for Public {
				fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
					self.0.as_slice().serialize(z)
				}
			}
			#[derive(Clone)]
			pub struct Pair(Public);
			impl super::Pair for Pair {
				type Public = Public;
				fn from_string(phrase: &str, password: Option<&str>) -> Result<Self, SecretStringError> {
					let text = format!("{phrase}{}", password.unwrap_or(""));
					if !text.starts_with("//") || text.len() > $p {
						return Err(SecretStringError::InvalidFormat);
					}
					let mut b = [0u8; $p];
					b[..text.len()].copy_from_slice(text.as_bytes());
					Ok(Pair(Public(b)))
				}
				fn public(&self) -> Public {
					self.0
				}
			}
			impl super::Public for Public {
				type Pair = Pair;
			}
		}
	};
}
/// Keys: who has the phrase has the key. Here the public key is the phrase itself.
pub trait Public: Clone + AsRef<[u8]> + core::fmt::Debug {
	type Pair: Pair<Public = Self>;
}
pub trait Pair: Sized {
	type Public;
	fn from_string(phrase: &str, password: Option<&str>) -> Result<Self, SecretStringError>;
	fn public(&self) -> Self::Public;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SecretStringError {
	InvalidFormat,
	InvalidPath,
}
crypto!(sr25519, 32, 64);
crypto!(ed25519, 32, 64);
crypto!(ecdsa, 33, 65);

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct OpaqueMetadata(pub Vec<u8>);
impl OpaqueMetadata {
	pub fn new(v: Vec<u8>) -> Self {
		Self(v)
	}
}
