//! FixedI64/FixedU128 as far as the curves and fee constants need them.
use crate::arith::*;
use crate::codec::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::TypeInfo;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct FixedI64(i64);
impl FixedI64 {
	pub const DIV: i64 = 1_000_000_000;
	pub const fn from_inner(x: i64) -> Self {
		Self(x)
	}
	pub const fn into_inner(self) -> i64 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		Self(n as i64 * Self::DIV)
	}
	pub const fn from_rational(a: u128, b: u128) -> Self {
		// rounds to nearest, as the real one
		let n = a * Self::DIV as u128;
		let q = n / b;
		let r = n % b;
		Self((if r * 2 > b { q + 1 } else { q }) as i64)
	}
	pub const fn saturating_from_integer(n: i64) -> Self {
		Self(n.saturating_mul(Self::DIV))
	}
	pub const fn from_perbill(p: Perbill) -> Self {
		Self(p.deconstruct() as i64)
	}
	pub const fn into_perbill(self) -> Perbill {
		if self.0 <= 0 {
			Perbill::zero()
		} else if self.0 >= Self::DIV {
			Perbill::one()
		} else {
			Perbill::from_parts(self.0 as u32)
		}
	}
	pub const fn sub(self, r: Self) -> Self {
		Self(self.0 - r.0)
	}
	pub const fn add(self, r: Self) -> Self {
		Self(self.0 + r.0)
	}
	pub const fn neg(self) -> Self {
		Self(-self.0)
	}
	pub const fn const_mul(self, r: Self) -> Self {
		Self((self.0 as i128 * r.0 as i128 / Self::DIV as i128) as i64)
	}
	pub const fn div(self, r: Self) -> Self {
		Self((self.0 as i128 * Self::DIV as i128 / r.0 as i128) as i64)
	}
	pub const fn sqrt(self) -> Self {
		// integer square root of inner * DIV
		let n = self.0 as u128 * Self::DIV as u128;
		let mut lo = 0u128;
		let mut hi = 1u128 << 64;
		while hi - lo > 1 {
			let m = (lo + hi) / 2;
			if m * m <= n {
				lo = m
			} else {
				hi = m
			}
		}
		Self(lo as i64)
	}
	pub fn saturating_add(self, r: Self) -> Self {
		Self(self.0.saturating_add(r.0))
	}
	pub fn saturating_sub(self, r: Self) -> Self {
		Self(self.0.saturating_sub(r.0))
	}
	pub fn saturating_mul(self, r: Self) -> Self {
		let x = self.0 as i128 * r.0 as i128 / Self::DIV as i128;
		Self(x.clamp(i64::MIN as i128, i64::MAX as i128) as i64)
	}
}

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct FixedU128(u128);
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_inner(x: u128) -> Self {
		Self(x)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		Self(n as u128 * Self::DIV)
	}
	pub fn from_rational(a: u128, b: u128) -> Self {
		Self::saturating_from_rational(a, b)
	}
	pub fn saturating_from_rational(a: u128, b: u128) -> Self {
		Self(a.saturating_mul(Self::DIV) / b)
	}
	pub fn saturating_from_integer(a: u128) -> Self {
		Self(a.saturating_mul(Self::DIV))
	}
	/// `self * n`, rounded down, in parts so that nothing overflows early.
	pub fn saturating_mul_int(self, n: u128) -> u128 {
		let (whole, part) = (self.0 / Self::DIV, self.0 % Self::DIV);
		let (nq, nr) = (n / Self::DIV, n % Self::DIV);
		whole.saturating_mul(n).saturating_add(part.saturating_mul(nq)).saturating_add(part * nr / Self::DIV)
	}
}
pub trait FixedPointNumber {}
impl FixedPointNumber for FixedI64 {}
impl FixedPointNumber for FixedU128 {}
