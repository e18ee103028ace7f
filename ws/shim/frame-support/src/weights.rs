use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::*;
use shim_base::traits::Get;
use std::marker::PhantomData;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
#[derive(Encode, Decode, CompactAs)]
struct _C(u64);

impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Weight { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Weight { ref_time: v, proof_size: v }
	}
	pub const fn zero() -> Self {
		Weight { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn set_ref_time(mut self, v: u64) -> Self {
		self.ref_time = v;
		self
	}
	pub const fn set_proof_size(mut self, v: u64) -> Self {
		self.proof_size = v;
		self
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time.saturating_mul(n), proof_size: self.proof_size.saturating_mul(n) }
	}
	pub const fn saturating_div(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time / n, proof_size: self.proof_size / n }
	}
	pub const fn div(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time / n, proof_size: self.proof_size / n }
	}
	pub const fn mul(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time * n, proof_size: self.proof_size * n }
	}
	pub const fn add_ref_time(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time + n, proof_size: self.proof_size }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub const fn checked_add(&self, o: &Self) -> Option<Self> {
		match (self.ref_time.checked_add(o.ref_time), self.proof_size.checked_add(o.proof_size)) {
			(Some(a), Some(b)) => Some(Weight { ref_time: a, proof_size: b }),
			_ => None,
		}
	}
	pub const fn checked_sub(&self, o: &Self) -> Option<Self> {
		match (self.ref_time.checked_sub(o.ref_time), self.proof_size.checked_sub(o.proof_size)) {
			(Some(a), Some(b)) => Some(Weight { ref_time: a, proof_size: b }),
			_ => None,
		}
	}
	pub fn min(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, n: u64) -> Self {
		Weight::mul(self, n)
	}
}
impl Mul<Perbill> for Weight {
	type Output = Self;
	fn mul(self, b: Perbill) -> Self {
		Weight { ref_time: b * self.ref_time, proof_size: b * self.proof_size }
	}
}
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, n: u64) -> Self {
		Weight::div(self, n)
	}
}
macro_rules! per_mul {
	($($t:ty),*) => { $(impl Mul<Weight> for $t {
		type Output = Weight;
		fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } }
	})* };
}
per_mul!(Percent, Perbill, Permill);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, n: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(n), 0)
	}
	pub fn writes(self, n: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(n), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		self.reads(r).saturating_add(self.writes(w))
	}
}

pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
#[derive(Clone, Debug)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = smallvec::SmallVec<[WeightToFeeCoefficient<T>; 4]>;
#[derive(Clone, Debug)]
pub struct FeePolynomial<Balance> {
	pub coefficients: WeightToFeeCoefficients<Balance>,
}
impl<Balance> From<WeightToFeeCoefficients<Balance>> for FeePolynomial<Balance> {
	fn from(coefficients: WeightToFeeCoefficients<Balance>) -> Self {
		FeePolynomial { coefficients }
	}
}
impl<Balance> FeePolynomial<Balance>
where
	Balance: BaseArithmetic + From<u32> + Copy + Unsigned,
	Perbill: Mul<Balance, Output = Balance>,
{
	/// As in the original: integer and fractional parts per coefficient, saturating.
	pub fn eval(&self, x: u64) -> Balance {
		self.coefficients.iter().fold(Balance::zero(), |mut acc, t| {
			let x = Balance::saturated_from_u64(x);
			let mut w = Balance::one();
			for _ in 0..t.degree {
				w = w.saturating_mul(x);
			}
			let frac = t.coeff_frac * w;
			let integer = t.coeff_integer.saturating_mul(w);
			if t.negative {
				acc = acc.saturating_sub(frac);
				acc = acc.saturating_sub(integer);
			} else {
				acc = acc.saturating_add(frac);
				acc = acc.saturating_add(integer);
			}
			acc
		})
	}
}
pub trait SaturatedFromU64 {
	fn saturated_from_u64(x: u64) -> Self;
}
impl<T: UniqueSaturatedFrom<u64>> SaturatedFromU64 for T {
	fn saturated_from_u64(x: u64) -> Self {
		T::unique_saturated_from(x)
	}
}
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T
where
	Perbill: Mul<T::Balance, Output = T::Balance>,
{
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance {
		let p: FeePolynomial<T::Balance> = T::polynomial().into();
		p.eval(w.ref_time())
	}
}
pub struct IdentityFee<T>(PhantomData<T>);
impl<T: UniqueSaturatedFrom<u64>> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::unique_saturated_from(w.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(PhantomData<(T, M)>);
impl<T: UniqueSaturatedFrom<u64> + Saturating, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		Saturating::saturating_mul(T::unique_saturated_from(w.ref_time()), M::get())
	}
}
pub struct FixedFee<const F: u32, T>(PhantomData<T>);

pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	macro_rules! db {
		($n:ident, $r:expr, $w:expr) => {
			pub struct $n;
			impl Get<RuntimeDbWeight> for $n {
				fn get() -> RuntimeDbWeight {
					RuntimeDbWeight { read: $r, write: $w }
				}
			}
			impl $n {
				pub fn get() -> RuntimeDbWeight {
					RuntimeDbWeight { read: $r, write: $w }
				}
			}
		};
	}
	db!(RocksDbWeight, 25_000 * WEIGHT_REF_TIME_PER_NANOS, 100_000 * WEIGHT_REF_TIME_PER_NANOS);
	db!(ParityDbWeight, 8_000 * WEIGHT_REF_TIME_PER_NANOS, 50_000 * WEIGHT_REF_TIME_PER_NANOS);
	macro_rules! wt {
		($n:ident, $v:expr) => {
			pub struct $n;
			impl Get<Weight> for $n {
				fn get() -> Weight {
					Weight::from_parts($v, 0)
				}
			}
			impl $n {
				pub const fn get() -> Weight {
					Weight::from_parts($v, 0)
				}
			}
		};
	}
	wt!(BlockExecutionWeight, 453_383 * WEIGHT_REF_TIME_PER_NANOS);
	wt!(ExtrinsicBaseWeight, 98_974 * WEIGHT_REF_TIME_PER_NANOS);
}
