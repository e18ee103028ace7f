//! Fungible tokens, as the original declares them; default methods follow the original's logic.
use super::tokens::*;
use crate::ensure;
use shim_base::arith::{CheckedAdd, CheckedSub, Saturating, Zero};
use shim_base::runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};

pub use imbalance::{Credit, Debt};
pub struct Dust<A, T: Inspect<A>>(pub T::Balance);

pub trait Inspect<AccountId>: Sized {
	type Balance: Balance;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance {
		Self::total_issuance()
	}
	fn minimum_balance() -> Self::Balance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn balance(who: &AccountId) -> Self::Balance;
	fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
}
pub trait Unbalanced<AccountId>: Inspect<AccountId> {
	fn handle_raw_dust(amount: Self::Balance) {
		Self::handle_dust(Dust(amount))
	}
	fn handle_dust(dust: Dust<AccountId, Self>);
	fn write_balance(who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(amount: Self::Balance);
	fn decrease_balance(
		who: &AccountId,
		mut amount: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(who);
		let reducible = Self::reducible_balance(who, preservation, force);
		match precision {
			Precision::BestEffort => amount = amount.min(reducible),
			Precision::Exact => ensure!(reducible >= amount, TokenError::FundsUnavailable),
		}
		let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(who, new_balance)? {
			Self::handle_dust(Dust(dust));
		}
		Ok(old_balance.saturating_sub(new_balance))
	}
	fn increase_balance(who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old_balance = Self::balance(who);
		let new_balance = if let Precision::BestEffort = precision {
			old_balance.saturating_add(amount)
		} else {
			old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
		};
		if new_balance < Self::minimum_balance() {
			if let Precision::BestEffort = precision {
				Ok(Self::Balance::default())
			} else {
				Err(TokenError::BelowMinimum.into())
			}
		} else if new_balance == old_balance {
			Ok(Self::Balance::default())
		} else {
			if let Some(dust) = Self::write_balance(who, new_balance)? {
				Self::handle_dust(Dust(dust));
			}
			Ok(new_balance.saturating_sub(old_balance))
		}
	}
	fn deactivate(_: Self::Balance) {}
	fn reactivate(_: Self::Balance) {}
}
pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
	fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(who, amount, Precision::Exact)?;
		Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
		Self::done_mint_into(who, amount);
		Ok(actual)
	}
	fn burn_from(
		who: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
		precision: Precision,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, preservation, force).min(amount);
		ensure!(actual == amount || precision == Precision::BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(who, actual, Precision::BestEffort, preservation, force)?;
		Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
		Self::done_burn_from(who, actual);
		Ok(actual)
	}
	fn shelve(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite).min(amount);
		ensure!(actual == amount, TokenError::FundsUnavailable);
		let actual = Self::decrease_balance(who, actual, Precision::BestEffort, Preservation::Expendable, Fortitude::Polite)?;
		Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
		Ok(actual)
	}
	fn restore(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::mint_into(who, amount)
	}
	fn transfer(
		source: &AccountId,
		dest: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
	) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(source, amount).into_result(preservation != Preservation::Expendable)?;
		Self::can_deposit(dest, amount, Provenance::Extant).into_result()?;
		if source == dest {
			return Ok(amount);
		}
		Self::decrease_balance(source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
		let _ = Self::increase_balance(dest, amount, Precision::BestEffort);
		Self::done_transfer(source, dest, amount);
		Ok(amount)
	}
	fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(who);
		if b > amount {
			Self::burn_from(who, b - amount, Preservation::Expendable, Precision::BestEffort, Fortitude::Force)
				.map(|d| b.saturating_sub(d))
		} else {
			Self::mint_into(who, amount - b).map(|d| b.saturating_add(d))
		}
		.unwrap_or(b)
	}
	fn done_mint_into(_who: &AccountId, _amount: Self::Balance) {}
	fn done_burn_from(_who: &AccountId, _amount: Self::Balance) {}
	fn done_transfer(_source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
}
pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	type OnDropDebt;
	type OnDropCredit;
	fn issue(amount: Self::Balance) -> Credit<AccountId, Self> {
		Self::set_total_issuance(Self::total_issuance().saturating_add(amount));
		Credit::new(amount)
	}
	fn deposit(who: &AccountId, value: Self::Balance, precision: Precision) -> Result<Debt<AccountId, Self>, DispatchError> {
		let increase = Self::increase_balance(who, value, precision)?;
		Ok(Debt::new(increase))
	}
	fn withdraw(
		who: &AccountId,
		value: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Credit<AccountId, Self>, DispatchError> {
		let decrease = Self::decrease_balance(who, value, precision, preservation, force)?;
		Ok(Credit::new(decrease))
	}
	fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>> {
		let v = credit.peek();
		match Self::increase_balance(who, v, Precision::Exact) {
			Ok(_) => {
				core::mem::forget(credit);
				Ok(())
			}
			Err(_) => Err(credit),
		}
	}
}
pub mod imbalance {
	use super::*;
	/// Funds taken out of accounts; dropped credit is burned from the issuance.
	pub struct Credit<A, B: Inspect<A> + Unbalanced<A>>(B::Balance, core::marker::PhantomData<A>);
	impl<A, B: Inspect<A> + Unbalanced<A>> Credit<A, B> {
		pub fn new(v: B::Balance) -> Self {
			Credit(v, core::marker::PhantomData)
		}
		pub fn peek(&self) -> B::Balance {
			self.0
		}
	}
	impl<A, B: Inspect<A> + Unbalanced<A>> Drop for Credit<A, B> {
		fn drop(&mut self) {
			if !self.0.is_zero() {
				B::set_total_issuance(B::total_issuance().saturating_sub(self.0));
			}
		}
	}
	/// Funds put into accounts out of nothing; dropped debt is added to the issuance.
	pub struct Debt<A, B: Inspect<A> + Unbalanced<A>>(B::Balance, core::marker::PhantomData<A>);
	impl<A, B: Inspect<A> + Unbalanced<A>> Debt<A, B> {
		pub fn new(v: B::Balance) -> Self {
			Debt(v, core::marker::PhantomData)
		}
		pub fn peek(&self) -> B::Balance {
			self.0
		}
	}
	impl<A, B: Inspect<A> + Unbalanced<A>> Drop for Debt<A, B> {
		fn drop(&mut self) {
			if !self.0.is_zero() {
				B::set_total_issuance(B::total_issuance().saturating_add(self.0));
			}
		}
	}
}
pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: parity_scale_codec::Encode + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(who: &AccountId) -> Self::Balance;
		fn balance_on_hold(reason: &Self::Reason, who: &AccountId) -> Self::Balance;
		fn reducible_total_balance_on_hold(who: &AccountId, _force: Fortitude) -> Self::Balance {
			Self::total_balance_on_hold(who)
		}
		fn hold_available(_reason: &Self::Reason, _who: &AccountId) -> bool {
			true
		}
		fn ensure_can_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			ensure!(Self::hold_available(reason, who), TokenError::CannotCreateHold);
			ensure!(
				amount <= Self::reducible_balance(who, Preservation::Protect, Fortitude::Force),
				TokenError::FundsUnavailable
			);
			Ok(())
		}
		fn can_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool {
			Self::ensure_can_hold(reason, who, amount).is_ok()
		}
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn set_balance_on_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn decrease_balance_on_hold(
			reason: &Self::Reason,
			who: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance_on_hold(reason, who);
			if let Precision::BestEffort = precision {
				amount = amount.min(old);
			}
			let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			Self::set_balance_on_hold(reason, who, new)?;
			Ok(amount)
		}
		fn increase_balance_on_hold(
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			let old = Self::balance_on_hold(reason, who);
			let new = if let Precision::BestEffort = precision {
				old.saturating_add(amount)
			} else {
				old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			let amount = new.saturating_sub(old);
			if !amount.is_zero() {
				Self::set_balance_on_hold(reason, who, new)?;
			}
			Ok(amount)
		}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			Self::ensure_can_hold(reason, who, amount)?;
			Self::decrease_balance(who, amount, Precision::Exact, Preservation::Protect, Fortitude::Force)?;
			Self::increase_balance_on_hold(reason, who, amount, Precision::BestEffort)?;
			Self::done_hold(reason, who, amount);
			Ok(())
		}
		fn release(
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError> {
			ensure!(
				Self::can_deposit(who, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			let amount = Self::decrease_balance_on_hold(reason, who, amount, precision)?;
			let actual = Self::increase_balance(who, amount, Precision::BestEffort)?;
			Self::done_release(reason, who, actual);
			Ok(actual)
		}
		fn set_on_hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let cur = Self::balance_on_hold(reason, who);
			if cur > amount {
				Self::release(reason, who, cur - amount, Precision::Exact).map(|_| ())
			} else if amount > cur {
				Self::hold(reason, who, amount - cur)
			} else {
				Ok(())
			}
		}
		fn release_all(reason: &Self::Reason, who: &AccountId, precision: Precision) -> Result<Self::Balance, DispatchError> {
			Self::release(reason, who, Self::balance_on_hold(reason, who), precision)
		}
		fn burn_held(
			reason: &Self::Reason,
			who: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let liquid = Self::reducible_total_balance_on_hold(who, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(liquid);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
			}
			let amount = Self::decrease_balance_on_hold(reason, who, amount, precision)?;
			Self::set_total_issuance(Self::total_issuance().saturating_sub(amount));
			Self::done_burn_held(reason, who, amount);
			Ok(amount)
		}
		fn burn_all_held(
			reason: &Self::Reason,
			who: &AccountId,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let amount = Self::balance_on_hold(reason, who);
			Self::burn_held(reason, who, amount, precision, force)
		}
		fn transfer_on_hold(
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
			mode: Restriction,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let have = Self::balance_on_hold(reason, source);
			let liquid = Self::reducible_total_balance_on_hold(source, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(liquid).min(have);
			} else {
				ensure!(amount <= liquid, TokenError::Frozen);
				ensure!(amount <= have, TokenError::FundsUnavailable);
			}
			ensure!(
				Self::can_deposit(dest, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			ensure!(
				mode == Restriction::Free || Self::hold_available(reason, dest),
				TokenError::CannotCreateHold
			);
			let amount = Self::decrease_balance_on_hold(reason, source, amount, precision)?;
			let actual = if mode == Restriction::OnHold {
				Self::increase_balance_on_hold(reason, dest, amount, precision)?
			} else {
				Self::increase_balance(dest, amount, precision)?
			};
			Self::done_transfer_on_hold(reason, source, dest, actual);
			Ok(actual)
		}
		fn transfer_and_hold(
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			amount: Self::Balance,
			precision: Precision,
			expendability: Preservation,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			ensure!(Self::hold_available(reason, dest), TokenError::CannotCreateHold);
			ensure!(
				Self::can_deposit(dest, amount, Provenance::Extant) == DepositConsequence::Success,
				TokenError::CannotCreate
			);
			let actual = Self::decrease_balance(source, amount, precision, expendability, force)?;
			Self::increase_balance_on_hold(reason, dest, actual, precision)?;
			Self::done_transfer_and_hold(reason, source, dest, actual);
			Ok(actual)
		}
		fn done_hold(_reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_release(_reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_burn_held(_reason: &Self::Reason, _who: &AccountId, _amount: Self::Balance) {}
		fn done_transfer_on_hold(_reason: &Self::Reason, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
		fn done_transfer_and_hold(_reason: &Self::Reason, _source: &AccountId, _dest: &AccountId, _amount: Self::Balance) {}
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: parity_scale_codec::Encode + scale_info::TypeInfo + 'static;
		fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(who: &AccountId) -> Self::Balance {
			Self::total_balance(who)
		}
		fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Fortitude::Force;
			ensure!(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable);
			Self::set_freeze(id, who, amount)
		}
		fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
			let force = fortitude == Fortitude::Force;
			ensure!(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable);
			Self::extend_freeze(id, who, amount)
		}
		fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
			Self::set_freeze(id, who, a)
		}
		fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Self::set_frozen(id, who, a, Fortitude::Polite)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold, Unbalanced as UnbalancedHold};

use std::marker::PhantomData;
/// One asset of a set of fungibles.
pub struct ItemOf<F, A, AccountId>(PhantomData<(F, A, AccountId)>);
use super::fungibles;
use shim_base::traits::Get;
impl<F: fungibles::Inspect<AccountId>, A: Get<F::AssetId>, AccountId> Inspect<AccountId> for ItemOf<F, A, AccountId> {
	type Balance = F::Balance;
	fn total_issuance() -> F::Balance { F::total_issuance(A::get()) }
	fn minimum_balance() -> F::Balance { F::minimum_balance(A::get()) }
	fn total_balance(who: &AccountId) -> F::Balance { F::total_balance(A::get(), who) }
	fn balance(who: &AccountId) -> F::Balance { F::balance(A::get(), who) }
	fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> F::Balance { F::reducible_balance(A::get(), who, p, f) }
	fn can_deposit(who: &AccountId, a: F::Balance, p: Provenance) -> DepositConsequence { F::can_deposit(A::get(), who, a, p) }
	fn can_withdraw(who: &AccountId, a: F::Balance) -> WithdrawConsequence<F::Balance> { F::can_withdraw(A::get(), who, a) }
}
impl<F: fungibles::Unbalanced<AccountId>, A: Get<F::AssetId>, AccountId> Unbalanced<AccountId> for ItemOf<F, A, AccountId> {
	fn handle_dust(d: Dust<AccountId, Self>) { F::handle_dust(fungibles::Dust(A::get(), d.0)) }
	fn write_balance(who: &AccountId, a: F::Balance) -> Result<Option<F::Balance>, DispatchError> { F::write_balance(A::get(), who, a) }
	fn set_total_issuance(a: F::Balance) { F::set_total_issuance(A::get(), a) }
	fn decrease_balance(who: &AccountId, a: F::Balance, p: Precision, k: Preservation, f: Fortitude) -> Result<F::Balance, DispatchError> {
		F::decrease_balance(A::get(), who, a, p, k, f)
	}
	fn increase_balance(who: &AccountId, a: F::Balance, p: Precision) -> Result<F::Balance, DispatchError> { F::increase_balance(A::get(), who, a, p) }
}
impl<F: fungibles::Mutate<AccountId>, A: Get<F::AssetId>, AccountId: Eq> Mutate<AccountId> for ItemOf<F, A, AccountId> {
	fn mint_into(who: &AccountId, a: F::Balance) -> Result<F::Balance, DispatchError> { F::mint_into(A::get(), who, a) }
	fn burn_from(who: &AccountId, a: F::Balance, k: Preservation, p: Precision, f: Fortitude) -> Result<F::Balance, DispatchError> {
		F::burn_from(A::get(), who, a, k, p, f)
	}
	fn transfer(s: &AccountId, d: &AccountId, a: F::Balance, k: Preservation) -> Result<F::Balance, DispatchError> { F::transfer(A::get(), s, d, a, k) }
}

/// A deposit held on the payer, proportional to a footprint.
#[derive(Default)]
pub struct HoldConsideration<A, F: InspectHold<A>, R, D, Fp = crate::traits::Footprint>(F::Balance, PhantomData<fn() -> (A, R, D, Fp)>);
mod consideration {
	use super::*;
	use crate::traits::{Consideration, Convert};
	use parity_scale_codec::*;
	impl<A, F: InspectHold<A>, R, D, Fp> Clone for HoldConsideration<A, F, R, D, Fp> {
		fn clone(&self) -> Self { HoldConsideration(self.0, PhantomData) }
	}
	impl<A, F: InspectHold<A>, R, D, Fp> PartialEq for HoldConsideration<A, F, R, D, Fp> {
		fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
	}
	impl<A, F: InspectHold<A>, R, D, Fp> Eq for HoldConsideration<A, F, R, D, Fp> {}
	impl<A, F: InspectHold<A>, R, D, Fp> std::fmt::Debug for HoldConsideration<A, F, R, D, Fp> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "HoldConsideration({:?})", self.0) }
	}
	impl<A, F: InspectHold<A>, R, D, Fp> Encode for HoldConsideration<A, F, R, D, Fp> {
		fn encode_to<T: Output + ?Sized>(&self, t: &mut T) { self.0.encode_to(t) }
	}
	impl<A, F: InspectHold<A>, R, D, Fp> EncodeLike for HoldConsideration<A, F, R, D, Fp> {}
	impl<A, F: InspectHold<A>, R, D, Fp> Decode for HoldConsideration<A, F, R, D, Fp> {
		fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(HoldConsideration(Decode::decode(i)?, PhantomData)) }
	}
	impl<A, F: InspectHold<A>, R, D, Fp> MaxEncodedLen for HoldConsideration<A, F, R, D, Fp> {
		fn max_encoded_len() -> usize { F::Balance::max_encoded_len() }
	}
	impl<A: 'static, F: InspectHold<A> + 'static, R: 'static, D: 'static, Fp: 'static> scale_info::TypeInfo for HoldConsideration<A, F, R, D, Fp> {
		type Identity = Self;
		fn type_info() -> scale_info::Type { scale_info::TypeDefPrimitive::U8.into() }
	}
	impl<A: 'static + Eq, F: MutateHold<A> + 'static, R: Get<F::Reason> + 'static, D: Convert<Fp, F::Balance> + 'static, Fp: 'static> Consideration<A, Fp>
		for HoldConsideration<A, F, R, D, Fp>
	{
		fn new(who: &A, fp: Fp) -> Result<Self, DispatchError> {
			let new = D::convert(fp);
			F::hold(&R::get(), who, new)?;
			Ok(Self(new, PhantomData))
		}
		fn update(self, who: &A, fp: Fp) -> Result<Self, DispatchError> {
			let new = D::convert(fp);
			if self.0 > new {
				F::release(&R::get(), who, self.0 - new, Precision::BestEffort)?;
			} else if new > self.0 {
				F::hold(&R::get(), who, new - self.0)?;
			}
			Ok(Self(new, PhantomData))
		}
		fn drop(self, who: &A) -> Result<(), DispatchError> {
			F::release(&R::get(), who, self.0, Precision::BestEffort).map(|_| ())
		}
	}
}
pub struct UnionOf<L, R, C, K, A>(PhantomData<(L, R, C, K, A)>);
pub struct NativeFromLeft;

/// Names of the imbalances of the original; `Credit` is what is modelled.
pub struct DecreaseIssuance<A, U>(core::marker::PhantomData<(A, U)>);
pub struct IncreaseIssuance<A, U>(core::marker::PhantomData<(A, U)>);
pub struct Imbalance<B, D, O>(B, core::marker::PhantomData<(D, O)>);
