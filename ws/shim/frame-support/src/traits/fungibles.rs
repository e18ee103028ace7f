//! Fungible tokens, as the original declares them; default methods follow the original's logic.
use super::tokens::*;
use crate::ensure;
use shim_base::arith::{CheckedAdd, CheckedSub, Saturating, Zero};
use shim_base::runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};

pub use imbalance::{Credit, Debt};
pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);

pub trait Inspect<AccountId>: Sized {
	type AssetId: AssetId;
	type Balance: Balance;
	fn total_issuance(asset: Self::AssetId) -> Self::Balance;
	fn active_issuance(asset: Self::AssetId) -> Self::Balance {
		Self::total_issuance(asset.clone())
	}
	fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
	fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	fn asset_exists(asset: Self::AssetId) -> bool;
}
pub trait Unbalanced<AccountId>: Inspect<AccountId> {
	fn handle_raw_dust(asset: Self::AssetId, amount: Self::Balance) {
		Self::handle_dust(Dust(asset.clone(), amount))
	}
	fn handle_dust(dust: Dust<AccountId, Self>);
	fn write_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(asset: Self::AssetId, amount: Self::Balance);
	fn decrease_balance(
		asset: Self::AssetId,
		who: &AccountId,
		mut amount: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(asset.clone(), who);
		let reducible = Self::reducible_balance(asset.clone(), who, preservation, force);
		match precision {
			Precision::BestEffort => amount = amount.min(reducible),
			Precision::Exact => ensure!(reducible >= amount, TokenError::FundsUnavailable),
		}
		let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(asset.clone(), who, new_balance)? {
			Self::handle_dust(Dust(asset.clone(), dust));
		}
		Ok(old_balance.saturating_sub(new_balance))
	}
	fn increase_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(asset.clone(), who);
		let new_balance = if let Precision::BestEffort = precision {
			old_balance.saturating_add(amount)
		} else {
			old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
		};
		if new_balance < Self::minimum_balance(asset.clone()) {
			if let Precision::BestEffort = precision {
				Ok(Self::Balance::default())
			} else {
				Err(TokenError::BelowMinimum.into())
			}
		} else if new_balance == old_balance {
			Ok(Self::Balance::default())
		} else {
			if let Some(dust) = Self::write_balance(asset.clone(), who, new_balance)? {
				Self::handle_dust(Dust(asset.clone(), dust));
			}
			Ok(new_balance.saturating_sub(old_balance))
		}
	}
	fn deactivate(_asset: Self::AssetId, _: Self::Balance) {}
	fn reactivate(_asset: Self::AssetId, _: Self::Balance) {}
}
pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
	fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance(asset.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(asset.clone(), who, amount, Precision::Exact)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_add(actual));
		Self::done_mint_into(asset.clone(), who, amount);
		Ok(actual)
	}
	fn burn_from(
		asset: Self::AssetId,
		who: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
		precision: Precision,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(asset.clone(), who, preservation, force).min(amount);
		ensure!(actual == amount || precision == Precision::BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance(asset.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(asset.clone(), who, actual, Precision::BestEffort, preservation, force)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
		Self::done_burn_from(asset.clone(), who, actual);
		Ok(actual)
	}
	fn shelve(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(asset.clone(), who, Preservation::Expendable, Fortitude::Polite).min(amount);
		ensure!(actual == amount, TokenError::FundsUnavailable);
		let actual = Self::decrease_balance(asset.clone(), who, actual, Precision::BestEffort, Preservation::Expendable, Fortitude::Polite)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
		Ok(actual)
	}
	fn restore(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::mint_into(asset.clone(), who, amount)
	}
	fn transfer(
		asset: Self::AssetId,
		source: &AccountId,
		dest: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
	) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(asset.clone(), source, amount).into_result(preservation != Preservation::Expendable)?;
		Self::can_deposit(asset.clone(), dest, amount, Provenance::Extant).into_result()?;
		if source == dest {
			return Ok(amount);
		}
		Self::decrease_balance(asset.clone(), source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
		let _ = Self::increase_balance(asset.clone(), dest, amount, Precision::BestEffort);
		Self::done_transfer(asset.clone(), source, dest, amount);
		Ok(amount)
	}
	fn set_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(asset.clone(), who);
		if b > amount {
			Self::burn_from(asset.clone(), who, b - amount, Preservation::Expendable, Precision::BestEffort, Fortitude::Force)
				.map(|d| b.saturating_sub(d))
		} else {
			Self::mint_into(asset.clone(), who, amount - b).map(|d| b.saturating_add(d))
		}
		.unwrap_or(b)
	}
	fn done_mint_into(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
	fn done_burn_from(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
	fn done_transfer(_asset: Self::AssetId, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
}
pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	type OnDropDebt;
	type OnDropCredit;
	fn issue(asset: Self::AssetId, amount: Self::Balance) -> Credit<AccountId, Self> {
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_add(amount));
		Credit::new(asset.clone(), amount)
	}
	fn deposit(asset: Self::AssetId, who: &AccountId, value: Self::Balance, precision: Precision) -> Result<Debt<AccountId, Self>, DispatchError> {
		let increase = Self::increase_balance(asset.clone(), who, value, precision)?;
		Ok(Debt::new(asset.clone(), increase))
	}
	fn withdraw(
		asset: Self::AssetId,
		who: &AccountId,
		value: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Credit<AccountId, Self>, DispatchError> {
		let decrease = Self::decrease_balance(asset.clone(), who, value, precision, preservation, force)?;
		Ok(Credit::new(asset.clone(), decrease))
	}
	fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>> {
		let v = credit.peek();
		match Self::increase_balance(credit.asset(), who, v, Precision::Exact) {
			Ok(_) => {
				core::mem::forget(credit);
				Ok(())
			}
			Err(_) => Err(credit),
		}
	}
}
pub mod imbalance {
	use super::*;
	/// Funds taken out of accounts; dropped credit is burned from the issuance.
	pub struct Credit<A, B: Inspect<A> + Unbalanced<A>>(B::AssetId, B::Balance, core::marker::PhantomData<A>);
	impl<A, B: Inspect<A> + Unbalanced<A>> Credit<A, B> {
		pub fn new(asset: B::AssetId, v: B::Balance) -> Self {
			Credit(asset, v, core::marker::PhantomData)
		}
		pub fn asset(&self) -> B::AssetId {
			self.0.clone()
		}
		pub fn peek(&self) -> B::Balance {
			self.1
		}
	}
	impl<A, B: Inspect<A> + Unbalanced<A>> Drop for Credit<A, B> {
		fn drop(&mut self) {
			if !self.1.is_zero() {
				B::set_total_issuance(self.0.clone(), B::total_issuance(self.0.clone()).saturating_sub(self.1));
			}
		}
	}
	/// Funds put into accounts out of nothing; dropped debt is added to the issuance.
	pub struct Debt<A, B: Inspect<A> + Unbalanced<A>>(B::AssetId, B::Balance, core::marker::PhantomData<A>);
	impl<A, B: Inspect<A> + Unbalanced<A>> Debt<A, B> {
		pub fn new(asset: B::AssetId, v: B::Balance) -> Self {
			Debt(asset, v, core::marker::PhantomData)
		}
		pub fn peek(&self) -> B::Balance {
			self.1
		}
	}
	impl<A, B: Inspect<A> + Unbalanced<A>> Drop for Debt<A, B> {
		fn drop(&mut self) {
			if !self.1.is_zero() {
				B::set_total_issuance(self.0.clone(), B::total_issuance(self.0.clone()).saturating_add(self.1));
			}
		}
	}
}
pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId) -> Self::Balance;
		fn reducible_total_balance_on_hold(asset: Self::AssetId, who: &AccountId, _force: Fortitude) -> Self::Balance {
			Self::total_balance_on_hold(asset.clone(), who)
		}
		fn hold_available(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId) -> bool {
			true
		}
		fn ensure_can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			ensure!(Self::hold_available(asset.clone(), reason, who), TokenError::CannotCreateHold);
			ensure!(
				amount <= Self::reducible_balance(asset.clone(), who, Preservation::Protect, Fortitude::Force),
				TokenError::FundsUnavailable
			);
			Ok(())
		}
		fn can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool {
			Self::ensure_can_hold(asset.clone(), reason, who, amount).is_ok()
		}
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn set_balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn decrease_balance_on_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance_on_hold(asset.clone(), reason, who);
			if let Precision::BestEffort = precision {
				amount = amount.min(old);
			}
			let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			Self::set_balance_on_hold(asset.clone(), reason, who, new)?;
			Ok(amount)
		}
		fn increase_balance_on_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance_on_hold(asset.clone(), reason, who);
			let new = if let Precision::BestEffort = precision {
				old.saturating_add(amount)
			} else {
				old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			let amount = new.saturating_sub(old);
			if !amount.is_zero() {
				Self::set_balance_on_hold(asset.clone(), reason, who, new)?;
			}
			Ok(amount)
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			Self::ensure_can_hold(asset.clone(), reason, who, amount)?;
			Self::decrease_balance(asset.clone(), who, amount, Precision::Exact, Preservation::Protect, Fortitude::Force)?;
			Self::increase_balance_on_hold(asset.clone(), reason, who, amount, Precision::BestEffort)?;
			Self::done_hold(asset.clone(), reason, who, amount);
			Ok(())
		}
		fn release(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			ensure!(
				Self::can_deposit(asset.clone(), who, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, who, amount, precision)?;
			let actual = Self::increase_balance(asset.clone(), who, amount, Precision::BestEffort)?;
			Self::done_release(asset.clone(), reason, who, actual);
			Ok(actual)
		}
		fn set_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let cur = Self::balance_on_hold(asset.clone(), reason, who);
			if cur > amount {
				Self::release(asset.clone(), reason, who, cur - amount, Precision::Exact).map(|_| ())
			} else if amount > cur {
				Self::hold(asset.clone(), reason, who, amount - cur)
			} else {
				Ok(())
			}
		}
		fn release_all(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, precision: Precision) -> Result<Self::Balance, DispatchError> {
			Self::release(asset.clone(), reason, who, Self::balance_on_hold(asset.clone(), reason, who), precision)
		}
		fn burn_held(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let liquid = Self::reducible_total_balance_on_hold(asset.clone(), who, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(liquid);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
			}
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, who, amount, precision)?;
			Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(amount));
			Self::done_burn_held(asset.clone(), reason, who, amount);
			Ok(amount)
		}
		fn burn_all_held(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let amount = Self::balance_on_hold(asset.clone(), reason, who);
			Self::burn_held(asset.clone(), reason, who, amount, precision, force)
		}
		fn transfer_on_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
			mode: Restriction,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let have = Self::balance_on_hold(asset.clone(), reason, source);
			let liquid = Self::reducible_total_balance_on_hold(asset.clone(), source, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(liquid).min(have);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
				ensure!(amount <= have, TokenError::FundsUnavailable);
			}
			ensure!(
				Self::can_deposit(asset.clone(), dest, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			ensure!(
				mode == Restriction::Free || Self::hold_available(asset.clone(), reason, dest),
				TokenError::CannotCreateHold
			);
			let amount = Self::decrease_balance_on_hold(asset.clone(), reason, source, amount, precision)?;
			let actual = if mode == Restriction::OnHold {
				Self::increase_balance_on_hold(asset.clone(), reason, dest, amount, precision)?
			} else {
				Self::increase_balance(asset.clone(), dest, amount, precision)?
			};
			Self::done_transfer_on_hold(asset.clone(), reason, source, dest, actual);
			Ok(actual)
		}
		fn transfer_and_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			amount: Self::Balance,
			precision: Precision,
			expendability: Preservation,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::hold_available(asset.clone(), reason, dest), TokenError::CannotCreateHold);
			ensure!(
				Self::can_deposit(asset.clone(), dest, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			let actual = Self::decrease_balance(asset.clone(), source, amount, precision, expendability, force)?;
			Self::increase_balance_on_hold(asset.clone(), reason, dest, actual, precision)?;
			Self::done_transfer_and_hold(asset.clone(), reason, source, dest, actual);
			Ok(actual)
		}
		fn done_hold(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_release(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_burn_held(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_transfer_on_hold(_asset: Self::AssetId, _reason: &Self::Reason, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
		fn done_transfer_and_hold(_asset: Self::AssetId, _reason: &Self::Reason, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: parity_scale_codec::Encode + scale_info::TypeInfo + 'static;
		fn balance_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(asset: Self::AssetId, who: &AccountId) -> Self::Balance {
			Self::total_balance(asset.clone(), who)
		}
		fn can_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Fortitude::Force;
			ensure!(force || Self::balance_freezable(asset.clone(), who) >= amount, TokenError::FundsUnavailable);
			Self::set_freeze(asset.clone(), id, who, amount)
		}
		fn ensure_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Fortitude::Force;
			ensure!(force || Self::balance_freezable(asset.clone(), who) >= amount, TokenError::FundsUnavailable);
			Self::extend_freeze(asset.clone(), id, who, amount)
		}
		fn decrease_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
			Self::set_freeze(asset.clone(), id, who, a)
		}
		fn increase_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Self::set_frozen(asset.clone(), id, who, a, Fortitude::Polite)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold, Unbalanced as UnbalancedHold};

pub trait Create<AccountId>: Inspect<AccountId> {
	fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
}
pub trait Destroy<AccountId>: Inspect<AccountId> {}
pub mod metadata {
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		fn name(asset: Self::AssetId) -> Vec<u8>;
		fn symbol(asset: Self::AssetId) -> Vec<u8>;
		fn decimals(asset: Self::AssetId) -> u8;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set(asset: Self::AssetId, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> shim_base::runtime::DispatchResult;
	}
}
pub mod roles {
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		fn owner(asset: Self::AssetId) -> Option<AccountId>;
		fn issuer(asset: Self::AssetId) -> Option<AccountId>;
		fn admin(asset: Self::AssetId) -> Option<AccountId>;
		fn freezer(asset: Self::AssetId) -> Option<AccountId>;
	}
	pub trait ResetTeam<AccountId>: super::Inspect<AccountId> {}
}
pub use metadata::{Inspect as InspectMetadata, Mutate as MutateMetadata};
pub mod approvals {
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {}
	pub trait Mutate<AccountId>: Inspect<AccountId> {}
}
