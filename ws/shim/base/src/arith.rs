//! Numeric traits and per-things, with the rounding and saturation rules of sp-arithmetic.
use crate::codec::{Decode, Encode, FullCodec, HasCompact, MaxEncodedLen, CompactAs};
use crate::scale_info::TypeInfo;
use std::fmt::Debug;
use std::ops::*;

pub use num_traits::{
	checked_pow, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub, One, Signed,
	Unsigned, Zero,
};

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_inc(&mut self)
	where
		Self: One + Clone,
	{
		let o = self.clone();
		*self = o.saturating_add(One::one());
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Clone,
	{
		let o = self.clone();
		*self = o.saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: Clone,
	{
		let o = self.clone();
		*self = o.saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: Clone,
	{
		let o = self.clone();
		*self = o.saturating_sub(amount);
	}
}

pub trait IntegerSquareRoot: Sized {}
pub trait EnsureOps: Sized {}

macro_rules! ensure_ops {
	($($tr:ident $f:ident $tra:ident $fa:ident $ch:ident $m:ident $err:expr;)*) => {$(
		pub trait $tr: $ch + PartialOrd + Zero + Copy {
			fn $f(self, r: Self) -> Result<Self, crate::runtime::ArithmeticError> {
				self.$m(&r).ok_or($err)
			}
		}
		impl<T: $ch + PartialOrd + Zero + Copy> $tr for T {}
		pub trait $tra: $tr {
			fn $fa(&mut self, r: Self) -> Result<(), crate::runtime::ArithmeticError> {
				*self = self.$f(r)?;
				Ok(())
			}
		}
		impl<T: $tr> $tra for T {}
	)*};
}
ensure_ops! {
	EnsureAdd ensure_add EnsureAddAssign ensure_add_assign CheckedAdd checked_add crate::runtime::ArithmeticError::Overflow;
	EnsureSub ensure_sub EnsureSubAssign ensure_sub_assign CheckedSub checked_sub crate::runtime::ArithmeticError::Underflow;
	EnsureMul ensure_mul EnsureMulAssign ensure_mul_assign CheckedMul checked_mul crate::runtime::ArithmeticError::Overflow;
	EnsureDiv ensure_div EnsureDivAssign ensure_div_assign CheckedDiv checked_div crate::runtime::ArithmeticError::DivisionByZero;
}

macro_rules! ints {
	($($t:ty),*) => {$(
		impl Saturating for $t {
			fn saturating_add(self, r: Self) -> Self { <$t>::saturating_add(self, r) }
			fn saturating_sub(self, r: Self) -> Self { <$t>::saturating_sub(self, r) }
			fn saturating_mul(self, r: Self) -> Self { <$t>::saturating_mul(self, r) }
			fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
		}
	)*};
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

pub trait BaseArithmetic:
	From<u8>
	+ Zero
	+ One
	+ Add<Self, Output = Self>
	+ AddAssign<Self>
	+ Sub<Self, Output = Self>
	+ SubAssign<Self>
	+ Mul<Self, Output = Self>
	+ MulAssign<Self>
	+ Div<Self, Output = Self>
	+ DivAssign<Self>
	+ Rem<Self, Output = Self>
	+ RemAssign<Self>
	+ Shl<u32, Output = Self>
	+ Shr<u32, Output = Self>
	+ CheckedAdd
	+ CheckedSub
	+ CheckedMul
	+ CheckedDiv
	+ Saturating
	+ PartialOrd<Self>
	+ Ord
	+ Bounded
	+ HasCompact
	+ Sized
	+ Clone
	+ TryFrom<u8>
	+ TryInto<u8>
	+ TryFrom<u16>
	+ TryInto<u16>
	+ TryFrom<u32>
	+ TryInto<u32>
	+ TryFrom<u64>
	+ TryInto<u64>
	+ TryFrom<u128>
	+ TryInto<u128>
	+ TryFrom<usize>
	+ TryInto<usize>
	+ UniqueSaturatedFrom<u8>
	+ UniqueSaturatedInto<u8>
	+ UniqueSaturatedFrom<u16>
	+ UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32>
	+ UniqueSaturatedInto<u32>
	+ UniqueSaturatedFrom<u64>
	+ UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128>
	+ UniqueSaturatedInto<u128>
	+ UniqueSaturatedFrom<usize>
	+ UniqueSaturatedInto<usize>
{
}
impl<T> BaseArithmetic for T where
	T: From<u8>
		+ Zero
		+ One
		+ Add<Self, Output = Self>
		+ AddAssign<Self>
		+ Sub<Self, Output = Self>
		+ SubAssign<Self>
		+ Mul<Self, Output = Self>
		+ MulAssign<Self>
		+ Div<Self, Output = Self>
		+ DivAssign<Self>
		+ Rem<Self, Output = Self>
		+ RemAssign<Self>
		+ Shl<u32, Output = Self>
		+ Shr<u32, Output = Self>
		+ CheckedAdd
		+ CheckedSub
		+ CheckedMul
		+ CheckedDiv
		+ Saturating
		+ PartialOrd<Self>
		+ Ord
		+ Bounded
		+ HasCompact
		+ Sized
		+ Clone
		+ TryFrom<u8>
		+ TryInto<u8>
		+ TryFrom<u16>
		+ TryInto<u16>
		+ TryFrom<u32>
		+ TryInto<u32>
		+ TryFrom<u64>
		+ TryInto<u64>
		+ TryFrom<u128>
		+ TryInto<u128>
		+ TryFrom<usize>
		+ TryInto<usize>
		+ UniqueSaturatedFrom<u8>
		+ UniqueSaturatedInto<u8>
		+ UniqueSaturatedFrom<u16>
		+ UniqueSaturatedInto<u16>
		+ UniqueSaturatedFrom<u32>
		+ UniqueSaturatedInto<u32>
		+ UniqueSaturatedFrom<u64>
		+ UniqueSaturatedInto<u64>
		+ UniqueSaturatedFrom<u128>
		+ UniqueSaturatedInto<u128>
		+ UniqueSaturatedFrom<usize>
		+ UniqueSaturatedInto<usize>
{
}

pub trait AtLeast8Bit: BaseArithmetic {}
impl<T: BaseArithmetic> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}

pub trait PerThing: Sized + Copy + Debug + Default + Ord + Encode + Decode + MaxEncodedLen + TypeInfo {
	type Inner: Copy + Into<u128> + TryFrom<u128>;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(p: Self::Inner) -> Self;
}

fn mul_round(p: u128, acc: u128, b: u128, r: Rounding) -> u128 {
	let (q, rem) = (b / acc, b % acc);
	let x = rem * p;
	let mut low = x / acc;
	let m = x % acc;
	match r {
		Rounding::Down => {}
		Rounding::Up => {
			if m > 0 {
				low += 1
			}
		}
		Rounding::NearestPrefDown => {
			if m > acc / 2 {
				low += 1
			}
		}
		Rounding::NearestPrefUp => {
			if m > 0 && m >= acc / 2 + acc % 2 {
				low += 1
			}
		}
	}
	q * p + low
}

fn rational(p: u128, q: u128, acc: u128) -> u128 {
	if q == 0 || p > q {
		return acc;
	}
	let (mut p, mut q) = (p, q);
	while p.checked_mul(acc).is_none() {
		p >>= 1;
		q >>= 1;
	}
	p * acc / q
}

macro_rules! per_thing {
	($name:ident, $inner:ty, $max:expr) => {
		#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize, Hash)]
		pub struct $name($inner);
		impl CompactAs for $name {
			type As = $inner;
			fn encode_as(&self) -> &$inner {
				&self.0
			}
			fn decode_from(x: $inner) -> Result<Self, crate::codec::Error> {
				Ok(Self::from_parts(x))
			}
		}
		impl From<crate::codec::Compact<$name>> for $name {
			fn from(x: crate::codec::Compact<$name>) -> $name {
				x.0
			}
		}
		impl PerThing for $name {
			type Inner = $inner;
			const ACCURACY: $inner = $max;
			fn deconstruct(self) -> $inner {
				self.0
			}
			fn from_parts(p: $inner) -> Self {
				Self::from_parts(p)
			}
		}
		impl $name {
			pub const ACCURACY: $inner = $max;
			pub const fn from_parts(parts: $inner) -> Self {
				Self(if parts > $max { $max } else { parts })
			}
			pub const fn from_percent(x: $inner) -> Self {
				let x = if x > 100 { 100 } else { x };
				Self((x as u128 * $max as u128 / 100) as $inner)
			}
			pub const fn from_perthousand(x: $inner) -> Self {
				Self(((x as u128 * $max as u128) / 1000) as $inner)
			}
			pub const fn deconstruct(self) -> $inner {
				self.0
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn one() -> Self {
				Self($max)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub fn from_rational<N>(p: N, q: N) -> Self
			where
				N: UniqueSaturatedInto<u128>,
			{
				let (p, q) = (p.unique_saturated_into(), q.unique_saturated_into());
				Self(rational(p, q, $max as u128) as $inner)
			}
			pub fn from_float(x: f64) -> Self {
				Self((x.max(0.0).min(1.0) * $max as f64) as $inner)
			}
			pub fn mul_floor<N>(self, b: N) -> N
			where
				N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>,
			{
				N::unique_saturated_from(mul_round(self.0 as u128, $max as u128, b.unique_saturated_into(), Rounding::Down))
			}
			pub fn mul_ceil<N>(self, b: N) -> N
			where
				N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>,
			{
				N::unique_saturated_from(mul_round(self.0 as u128, $max as u128, b.unique_saturated_into(), Rounding::Up))
			}
			pub fn square(self) -> Self {
				self * self
			}
			pub fn left_from_one(self) -> Self {
				Self($max - self.0)
			}
			pub const fn int_mul(self, b: u32) -> Self {
				let x = self.0 as u128 * b as u128;
				Self(if x > $max as u128 { $max } else { x as $inner })
			}
			pub const fn int_div(self, b: u32) -> Self {
				Self((self.0 as u128 / b as u128) as $inner)
			}
		}
		impl Saturating for $name {
			fn saturating_add(self, r: Self) -> Self {
				Self::from_parts(self.0.saturating_add(r.0))
			}
			fn saturating_sub(self, r: Self) -> Self {
				Self(self.0.saturating_sub(r.0))
			}
			fn saturating_mul(self, r: Self) -> Self {
				self * r
			}
			fn saturating_pow(self, e: usize) -> Self {
				(0..e).fold(Self::one(), |a, _| a * self)
			}
		}
		impl Add for $name {
			type Output = Self;
			fn add(self, r: Self) -> Self {
				let inner = self.0.checked_add(r.0).expect("overflow");
				debug_assert!(inner <= $max);
				Self::from_parts(inner)
			}
		}
		impl Sub for $name {
			type Output = Self;
			fn sub(self, r: Self) -> Self {
				Self(self.0.checked_sub(r.0).expect("underflow"))
			}
		}
		impl Mul<$name> for $name {
			type Output = Self;
			fn mul(self, r: Self) -> Self {
				Self((self.0 as u128 * r.0 as u128 / $max as u128) as $inner)
			}
		}
		impl Div<$name> for $name {
			type Output = Self;
			fn div(self, r: Self) -> Self {
				Self::from_rational(self.0 as u128, r.0 as u128)
			}
		}
		per_thing!(@mul $name, $max, u8, u16, u32, u64, u128);
	};
	(@mul $name:ident, $max:expr, $($t:ty),*) => {$(
		impl Mul<$t> for $name {
			type Output = $t;
			fn mul(self, b: $t) -> $t {
				mul_round(self.0 as u128, $max as u128, b as u128, Rounding::NearestPrefDown) as $t
			}
		}
	)*};
}
per_thing!(Percent, u8, 100u8);
per_thing!(PerU16, u16, 65535u16);
per_thing!(Permill, u32, 1_000_000u32);
per_thing!(Perbill, u32, 1_000_000_000u32);
per_thing!(Perquintill, u64, 1_000_000_000_000_000_000u64);

/// Fungible balance bounds, as `frame_support::traits::tokens::Balance`.
pub trait Balance:
	AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static
{
}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static> Balance for T {}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn rounding() {
		assert_eq!(Percent::from_percent(15).mul_floor(19u64), 2);
		assert_eq!(Percent::from_percent(50) * 3u64, 1);
		assert_eq!(Percent::from_percent(51) * 3u64, 2);
		assert_eq!(Perbill::from_rational(1u32, 3u32).deconstruct(), 333_333_333);
		assert_eq!(Perbill::from_rational(0u32, 0u32), Perbill::one());
		assert_eq!(Percent::from_percent(100).mul_floor(u128::MAX), u128::MAX);
	}
}
