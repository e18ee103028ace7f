use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct WithdrawReasons(pub u8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = WithdrawReasons(1);
	pub const TRANSFER: Self = WithdrawReasons(2);
	pub const RESERVE: Self = WithdrawReasons(4);
	pub const FEE: Self = WithdrawReasons(8);
	pub const TIP: Self = WithdrawReasons(16);
	pub fn all() -> Self {
		WithdrawReasons(31)
	}
	pub fn except(o: Self) -> Self {
		WithdrawReasons(31 & !o.0)
	}
	pub const fn empty() -> Self {
		WithdrawReasons(0)
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		WithdrawReasons(self.0 | o.0)
	}
}
/// The older currency interface; only what deposits need.
pub trait Currency<AccountId> {
	type Balance: super::Balance;
	type PositiveImbalance;
	type NegativeImbalance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, e: ExistenceRequirement) -> shim_base::runtime::DispatchResult;
	fn deposit_creating(who: &AccountId, value: Self::Balance);
	fn make_free_balance_be(who: &AccountId, value: Self::Balance);
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
	fn slash_reserved(who: &AccountId, value: Self::Balance) -> Self::Balance;
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, value: Self::Balance) -> shim_base::runtime::DispatchResult;
	fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(
		slashed: &AccountId,
		beneficiary: &AccountId,
		value: Self::Balance,
		status: super::BalanceStatus,
	) -> Result<Self::Balance, shim_base::runtime::DispatchError>;
}
/// No currency at all.
impl<AccountId> Currency<AccountId> for () {
	type Balance = u32;
	type PositiveImbalance = ();
	type NegativeImbalance = ();
	fn total_balance(_: &AccountId) -> u32 {
		0
	}
	fn total_issuance() -> u32 {
		0
	}
	fn minimum_balance() -> u32 {
		0
	}
	fn free_balance(_: &AccountId) -> u32 {
		0
	}
	fn transfer(_: &AccountId, _: &AccountId, _: u32, _: ExistenceRequirement) -> shim_base::runtime::DispatchResult {
		Ok(())
	}
	fn deposit_creating(_: &AccountId, _: u32) {}
	fn make_free_balance_be(_: &AccountId, _: u32) {}
}
impl<AccountId> ReservableCurrency<AccountId> for () {
	fn can_reserve(_: &AccountId, _: u32) -> bool {
		true
	}
	fn slash_reserved(_: &AccountId, _: u32) -> u32 {
		0
	}
	fn reserved_balance(_: &AccountId) -> u32 {
		0
	}
	fn reserve(_: &AccountId, _: u32) -> shim_base::runtime::DispatchResult {
		Ok(())
	}
	fn unreserve(_: &AccountId, _: u32) -> u32 {
		0
	}
	fn repatriate_reserved(_: &AccountId, _: &AccountId, _: u32, _: super::BalanceStatus) -> Result<u32, shim_base::runtime::DispatchError> {
		Ok(0)
	}
}
