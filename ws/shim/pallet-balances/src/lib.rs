//! The native balance with existential deposit, holds, freezes, locks-by-reserve and reference counting,
//! following the logic of the original.
#![feature(associated_type_defaults)]
use frame_support::traits::tokens::*;
use frame_support::traits::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::arith::{CheckedAdd, CheckedSub, Saturating, Zero};
use shim_base::runtime::{ArithmeticError, DispatchError, DispatchResult};

pub use pallet::*;
pub mod config_preludes {
	pub struct TestDefaultConfig;
}
pub trait DefaultConfig {}
pub mod weights {
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: u128,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AdjustmentDirection {
	Increase,
	Decrease,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use shim_base::traits::StaticLookup;
	pub(crate) type LookupSource<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason: Parameter + Member + MaxEncodedLen + Copy + VariantCount;
		type RuntimeFreezeReason: VariantCount;
		type WeightInfo;
		type Balance: frame_support::traits::tokens::Balance;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxFreezes: Get<u32>;
		type DoneSlashHandler = ();
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type TotalIssuance<T: Config<I>, I: 'static = ()> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config<I>, I: 'static = ()> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Holds<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::RuntimeHoldReason, T::Balance>>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::FreezeIdentifier, T::Balance>>, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
		IssuanceDeactivated,
		DeltaZero,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: LookupSource<T>, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		pub fn force_transfer(origin: OriginFor<T>, source: LookupSource<T>, dest: LookupSource<T>, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let (s, d) = (T::Lookup::lookup(source)?, T::Lookup::lookup(dest)?);
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: LookupSource<T>, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		pub fn transfer_all(origin: OriginFor<T>, dest: LookupSource<T>, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			let keep = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as fungible::Inspect<_>>::reducible_balance(&s, keep, Fortitude::Polite);
			<Self as fungible::Mutate<_>>::transfer(&s, &d, v, keep)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		pub fn force_unreserve(origin: OriginFor<T>, who: LookupSource<T>, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let _ = <Self as ReservableCurrency<_>>::unreserve(&w, amount);
			Ok(())
		}
		#[pallet::call_index(6)]
		pub fn upgrade_accounts(origin: OriginFor<T>, who: Vec<T::AccountId>) -> DispatchResultWithPostInfo {
			ensure_signed(origin)?;
			let _ = who;
			Ok(().into())
		}
		#[pallet::call_index(8)]
		pub fn force_set_balance(origin: OriginFor<T>, who: LookupSource<T>, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let new_free = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
			let old = Self::mutate_account(&w, |a| std::mem::replace(&mut a.free, new_free))?;
			TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_add(new_free).saturating_sub(old));
			Ok(())
		}
		#[pallet::call_index(9)]
		pub fn force_adjust_total_issuance(origin: OriginFor<T>, direction: AdjustmentDirection, #[pallet::compact] delta: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (direction, delta);
			Ok(())
		}
		#[pallet::call_index(10)]
		pub fn burn(origin: OriginFor<T>, #[pallet::compact] value: T::Balance, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let p = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			<Self as fungible::Mutate<_>>::burn_from(&s, value, p, Precision::Exact, Fortitude::Polite)?;
			Ok(())
		}
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, (_, n)| a + *n);
			TotalIssuance::<T, I>::put(total);
			for (who, free) in &self.balances {
				frame_system::Pallet::<T>::inc_providers(who);
				T::AccountStore::mutate_exists(who, |a| *a = Some(AccountData { free: *free, ..Default::default() })).expect("genesis account");
			}
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	pub fn mutate_account<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) })
	}
	fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<R, E> {
		let (r, dust) = Self::try_mutate_account(who, f)?;
		if let Some(d) = dust {
			<Self as fungible::Unbalanced<_>>::handle_raw_dust(d);
		}
		Ok(r)
	}
	fn try_mutate_account<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<(R, Option<T::Balance>), E> {
		let ed = T::ExistentialDeposit::get();
		T::AccountStore::try_mutate_exists(who, |maybe| {
			let is_new = maybe.is_none();
			let mut account = maybe.take().unwrap_or_default();
			let did_provide = account.free >= ed;
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= ed;
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			if does_consume && frame_system::Pallet::<T>::consumers(who) == 0 {
				let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who);
			}
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(who).inspect_err(|_| {
					if did_consume && !does_consume {
						let _ = frame_system::Pallet::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						frame_system::Pallet::<T>::dec_consumers(who);
					}
				})?;
			}
			let dust = if account.free < ed && account.reserved.is_zero() {
				(!account.free.is_zero()).then_some(account.free)
			} else {
				*maybe = Some(account);
				None
			};
			Ok((result, dust))
		})
	}
	fn update_freezes(who: &T::AccountId, freezes: Vec<IdAmount<T::FreezeIdentifier, T::Balance>>) -> DispatchResult {
		Self::mutate_account(who, |b| {
			b.frozen = Zero::zero();
			for l in &freezes {
				b.frozen = b.frozen.max(l.amount);
			}
		})?;
		if freezes.is_empty() {
			Freezes::<T, I>::remove(who);
		} else {
			Freezes::<T, I>::insert(who, freezes);
		}
		Ok(())
	}
}

impl<T: Config<I>, I: 'static> fungible::Inspect<T::AccountId> for Pallet<T, I> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	fn active_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get().saturating_sub(InactiveIssuance::<T, I>::get())
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if force == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if preservation == Preservation::Preserve
			|| preservation == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1
			|| preservation == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success;
		}
		if provenance == Provenance::Minted && TotalIssuance::<T, I>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum,
			Some(x) => x,
		};
		match a.reserved.checked_add(&new_free) {
			Some(_) => DepositConsequence::Success,
			None => DepositConsequence::Overflow,
		}
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		if TotalIssuance::<T, I>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		let a = Self::account(who);
		let Some(new_free) = a.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		let liquid = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen;
		}
		if new_free < T::ExistentialDeposit::get() {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		}
	}
}
impl<T: Config<I>, I: 'static> fungible::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_dust(dust: fungible::Dust<T::AccountId, Self>) {
		// dropped credit: the issuance shrinks by the dust
		TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(dust.0));
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (r, dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			let reduction = a.free.saturating_sub(amount);
			frame_support::ensure!(reduction <= max, Error::<T, I>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		let () = r;
		Ok(dust)
	}
	fn set_total_issuance(amount: T::Balance) {
		TotalIssuance::<T, I>::put(amount)
	}
	fn deactivate(amount: T::Balance) {
		InactiveIssuance::<T, I>::mutate(|b| *b = b.saturating_add(amount).min(TotalIssuance::<T, I>::get()))
	}
	fn reactivate(amount: T::Balance) {
		InactiveIssuance::<T, I>::mutate(|b| *b = b.saturating_sub(amount))
	}
}
impl<T: Config<I>, I: 'static> fungible::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_mint_into(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Minted { who: who.clone(), amount })
	}
	fn done_burn_from(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Burned { who: who.clone(), amount })
	}
	fn done_transfer(s: &T::AccountId, d: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount })
	}
}
impl<T: Config<I>, I: 'static> fungible::Balanced<T::AccountId> for Pallet<T, I> {
	type OnDropDebt = ();
	type OnDropCredit = ();
}
impl<T: Config<I>, I: 'static> fungible::InspectHold<T::AccountId> for Pallet<T, I> {
	type Reason = T::RuntimeHoldReason;
	fn total_balance_on_hold(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reducible_total_balance_on_hold(who: &T::AccountId, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let unavailable = if force == Fortitude::Force { Zero::zero() } else { a.frozen.saturating_sub(a.free) };
		a.reserved.saturating_sub(unavailable)
	}
	fn balance_on_hold(reason: &Self::Reason, who: &T::AccountId) -> T::Balance {
		Holds::<T, I>::get(who).iter().find(|x| &x.id == reason).map_or_else(Zero::zero, |x| x.amount)
	}
	fn hold_available(reason: &Self::Reason, who: &T::AccountId) -> bool {
		if frame_system::Pallet::<T>::providers(who) == 0 {
			return false;
		}
		let holds = Holds::<T, I>::get(who);
		(holds.len() as u32) < T::RuntimeHoldReason::VARIANT_COUNT || holds.iter().any(|x| &x.id == reason)
	}
}
impl<T: Config<I>, I: 'static> fungible::UnbalancedHold<T::AccountId> for Pallet<T, I> {
	fn set_balance_on_hold(reason: &Self::Reason, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let mut new_account = Self::account(who);
		let mut holds = Holds::<T, I>::get(who);
		let mut increase = true;
		let mut delta = amount;
		if let Some(item) = holds.iter_mut().find(|x| &x.id == reason) {
			delta = item.amount.max(amount) - item.amount.min(amount);
			increase = amount > item.amount;
			item.amount = amount;
			holds.retain(|x| !x.amount.is_zero());
		} else if !amount.is_zero() {
			frame_support::ensure!((holds.len() as u32) < T::RuntimeHoldReason::VARIANT_COUNT, Error::<T, I>::TooManyHolds);
			holds.push(IdAmount { id: *reason, amount });
		}
		new_account.reserved = if increase {
			new_account.reserved.checked_add(&delta).ok_or(ArithmeticError::Overflow)?
		} else {
			new_account.reserved.checked_sub(&delta).ok_or(ArithmeticError::Underflow)?
		};
		let (_, dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			*a = new_account;
			Ok(())
		})?;
		debug_assert!(dust.is_none(), "does not alter the main balance");
		if holds.is_empty() {
			Holds::<T, I>::remove(who);
		} else {
			Holds::<T, I>::insert(who, holds);
		}
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fungible::MutateHold<T::AccountId> for Pallet<T, I> {}
impl<T: Config<I>, I: 'static> fungible::InspectFreeze<T::AccountId> for Pallet<T, I> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T, I>::get(who).iter().find(|l| &l.id == id).map_or_else(Zero::zero, |l| l.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let l = Freezes::<T, I>::get(who);
		(l.len() as u32) < T::MaxFreezes::get() || l.iter().any(|x| &x.id == id)
	}
}
impl<T: Config<I>, I: 'static> fungible::MutateFreeze<T::AccountId> for Pallet<T, I> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Self::thaw(id, who);
		}
		let mut l = Freezes::<T, I>::get(who);
		if let Some(i) = l.iter_mut().find(|x| &x.id == id) {
			i.amount = amount;
		} else {
			frame_support::ensure!((l.len() as u32) < T::MaxFreezes::get(), Error::<T, I>::TooManyFreezes);
			l.push(IdAmount { id: *id, amount });
		}
		Self::update_freezes(who, l)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		let mut l = Freezes::<T, I>::get(who);
		if let Some(i) = l.iter_mut().find(|x| &x.id == id) {
			i.amount = i.amount.max(amount);
		} else {
			frame_support::ensure!((l.len() as u32) < T::MaxFreezes::get(), Error::<T, I>::TooManyFreezes);
			l.push(IdAmount { id: *id, amount });
		}
		Self::update_freezes(who, l)
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		if !Freezes::<T, I>::contains_key(who) {
			return Ok(());
		}
		let mut l = Freezes::<T, I>::get(who);
		l.retain(|x| &x.id != id);
		Self::update_freezes(who, l)
	}
}
impl<T: Config<I>, I: 'static> Currency<T::AccountId> for Pallet<T, I> {
	type Balance = T::Balance;
	type PositiveImbalance = ();
	type NegativeImbalance = ();
	fn total_balance(who: &T::AccountId) -> T::Balance {
		<Self as fungible::Inspect<_>>::total_balance(who)
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T, I>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		let p = match e {
			ExistenceRequirement::KeepAlive => Preservation::Preserve,
			ExistenceRequirement::AllowDeath => Preservation::Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(s, d, v, p).map(|_| ())
	}
	fn deposit_creating(who: &T::AccountId, v: T::Balance) {
		let _ = <Self as fungible::Mutate<_>>::mint_into(who, v);
	}
	fn make_free_balance_be(who: &T::AccountId, v: T::Balance) {
		let _ = <Self as fungible::Mutate<_>>::set_balance(who, v);
	}
}
impl<T: Config<I>, I: 'static> ReservableCurrency<T::AccountId> for Pallet<T, I> {
	fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool {
		v.is_zero() || <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Protect, Fortitude::Polite) >= v
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() {
			return Ok(());
		}
		frame_support::ensure!(Self::can_reserve(who, v), Error::<T, I>::InsufficientBalance);
		Self::mutate_account(who, |a| {
			a.free = a.free.saturating_sub(v);
			a.reserved = a.reserved.saturating_add(v);
		})
	}
	fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() || <Self as fungible::Inspect<_>>::total_balance(who).is_zero() {
			return v;
		}
		let actual = Self::mutate_account(who, |a| {
			let actual = a.reserved.min(v);
			a.reserved = a.reserved.saturating_sub(actual);
			a.free = a.free.saturating_add(actual);
			actual
		})
		.unwrap_or_else(|_| Zero::zero());
		v.saturating_sub(actual)
	}
	fn slash_reserved(who: &T::AccountId, v: T::Balance) -> T::Balance {
		let actual = Self::mutate_account(who, |a| {
			let actual = a.reserved.min(v);
			a.reserved = a.reserved.saturating_sub(actual);
			actual
		})
		.unwrap_or_else(|_| Zero::zero());
		TotalIssuance::<T, I>::mutate(|t| *t = t.saturating_sub(actual));
		v.saturating_sub(actual)
	}
	fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
		let actual = Self::account(s).reserved.min(v);
		Self::mutate_account(s, |a| a.reserved = a.reserved.saturating_sub(actual))?;
		Self::mutate_account(b, |a| match status {
			BalanceStatus::Free => a.free = a.free.saturating_add(actual),
			BalanceStatus::Reserved => a.reserved = a.reserved.saturating_add(actual),
		})?;
		Ok(v.saturating_sub(actual))
	}
}
