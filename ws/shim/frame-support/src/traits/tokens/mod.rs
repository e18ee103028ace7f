use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::*;
use shim_base::runtime::{ArithmeticError, DispatchError, TokenError};
use shim_base::traits::Convert;
use std::fmt::Debug;

pub mod currency;
pub mod imbalance;
pub mod nonfungible_v2;
pub mod nonfungibles_v2;
pub mod pay;
pub use super::fungible;
pub use super::fungibles;
pub use pay::{Pay, PayFromAccount, PaymentStatus};
pub mod nonfungible {}
pub mod nonfungibles {}

pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance:
	AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + shim_base::traits::MaybeSerializeDeserialize + 'static
{
}
impl<T> Balance for T where
	T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + shim_base::traits::MaybeSerializeDeserialize + 'static
{
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum WithdrawConsequence<Balance> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(Balance),
	Success,
}
use WithdrawConsequence::*;
impl<B: shim_base::arith::Zero> WithdrawConsequence<B> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
			ReducedToZero(r) => Ok(r),
			Success => Ok(B::zero()),
		}
	}
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> Result<(), DispatchError> {
		Err(match self {
			DepositConsequence::BelowMinimum => TokenError::BelowMinimum.into(),
			DepositConsequence::CannotCreate => TokenError::CannotCreate.into(),
			DepositConsequence::UnknownAsset => TokenError::UnknownAsset.into(),
			DepositConsequence::Overflow => ArithmeticError::Overflow.into(),
			DepositConsequence::Blocked => TokenError::Blocked.into(),
			DepositConsequence::Success => return Ok(()),
		})
	}
}
pub trait ConversionToAssetBalance<In, AssetId, Out> {
	type Error;
	fn to_asset_balance(balance: In, asset: AssetId) -> Result<Out, Self::Error>;
}
pub trait ConversionFromAssetBalance<AssetBalance, AssetId, OutBalance> {
	type Error;
	fn from_asset_balance(balance: AssetBalance, asset_id: AssetId) -> Result<OutBalance, Self::Error>;
}
pub struct UnityAssetBalanceConversion;
impl<AB, Id, OB: From<AB>> ConversionFromAssetBalance<AB, Id, OB> for UnityAssetBalanceConversion {
	type Error = ();
	fn from_asset_balance(b: AB, _: Id) -> Result<OB, ()> {
		Ok(b.into())
	}
}
pub trait GetSalary<R, A, B> {
	fn get_salary(rank: R, who: &A) -> B;
}
#[allow(unused)]
fn _c<T: Convert<u8, u8>>() {}
