//! Collators: those nobody can drop, and bonded candidates as long as they work.
use frame_support::traits::{Currency, ExistenceRequirement, Get, ReservableCurrency, ValidatorRegistration};
use parity_scale_codec::{Decode, Encode};
use shim_base::{ext, traits::AccountIdConversion};

frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		Currency,
		UpdateOrigin,
		PotId,
		MaxCandidates,
		MinEligibleCollators,
		MaxInvulnerables,
		KickThreshold,
		ValidatorId,
		ValidatorIdOf,
		ValidatorRegistration,
		WeightInfo
	}
	consts {  }
	calls {
		0 set_invulnerables(new: Vec<T::AccountId>);
		1 set_desired_candidates(max: u32);
		2 set_candidacy_bond(bond: u128);
		3 register_as_candidate();
		4 leave_intent();
		5 add_invulnerable(who: T::AccountId);
		6 remove_invulnerable(who: T::AccountId);
		7 update_bond(new_deposit: u128);
	}
}
pub struct IdentityCollator;

fn get<V: Decode + Default>(k: &impl Encode) -> V {
	ext::get(&k.encode()).and_then(|v| V::decode(&mut &v[..]).ok()).unwrap_or_default()
}
/// What is known to the harness under its real name is a call; these are what the calls do.
impl<T: Config> Pallet<T>
where
	T::Currency: ReservableCurrency<T::AccountId>,
	<T::Currency as Currency<T::AccountId>>::Balance: Decode,
	T::KickThreshold: Get<u32>,
	T::MinEligibleCollators: Get<u32>,
	T::MaxCandidates: Get<u32>,
	T::ValidatorRegistration: ValidatorRegistration<T::AccountId>,
	T::PotId: Get<frame_support::PalletId>,
{
	pub fn invulnerables() -> Vec<T::AccountId> {
		get(&"collators:invulnerable")
	}
	pub fn put_invulnerables(list: Vec<T::AccountId>) {
		ext::put(&"collators:invulnerable".encode(), list.encode())
	}
	pub fn put_bond(bond: <T::Currency as Currency<T::AccountId>>::Balance) {
		ext::put(&"collators:bond".encode(), bond.encode())
	}
	pub fn candidates() -> Vec<(T::AccountId, <T::Currency as Currency<T::AccountId>>::Balance)> {
		get(&"collators:candidates")
	}
	fn put_candidates(list: Vec<(T::AccountId, <T::Currency as Currency<T::AccountId>>::Balance)>) {
		ext::put(&"collators:candidates".encode(), list.encode())
	}
	pub fn account_id() -> T::AccountId {
		T::PotId::get().into_account_truncating()
	}
	fn now() -> u32 {
		let n: u64 = frame_system::Pallet::<T>::block_number().try_into().ok().expect("small");
		n as u32
	}
	fn eligible() -> u32 {
		(Self::invulnerables().len() + Self::candidates().len()) as u32
	}
	pub fn register(who: T::AccountId) -> shim_base::runtime::DispatchResult {
		let mut list = Self::candidates();
		let refused = list.len() as u32 >= T::MaxCandidates::get() || Self::invulnerables().contains(&who) || list.iter().any(|c| c.0 == who) || !T::ValidatorRegistration::is_registered(&who);
		if refused {
			return Err("refused".into());
		}
		let bond: <T::Currency as Currency<T::AccountId>>::Balance = ext::get(&"collators:bond".encode()).and_then(|v| Decode::decode(&mut &v[..]).ok()).expect("a bond");
		T::Currency::reserve(&who, bond)?;
		list.push((who.clone(), bond));
		Self::put_candidates(list);
		ext::put(&("collators:last", &who).encode(), (Self::now() + T::KickThreshold::get()).encode());
		Ok(())
	}
	fn remove(who: &T::AccountId) -> shim_base::runtime::DispatchResult {
		let mut list = Self::candidates();
		let at = list.iter().position(|c| c.0 == *who).ok_or("not a candidate")?;
		let (_, bond) = list.remove(at);
		T::Currency::unreserve(who, bond);
		Self::put_candidates(list);
		ext::kill(&("collators:last", who).encode());
		Ok(())
	}
	pub fn leave(who: T::AccountId) -> shim_base::runtime::DispatchResult {
		if Self::eligible() <= T::MinEligibleCollators::get() {
			return Err("too few".into());
		}
		Self::remove(&who)
	}
}
impl<T: Config> pallet_session::SessionManager<T::AccountId> for Pallet<T>
where
	T::Currency: ReservableCurrency<T::AccountId>,
	<T::Currency as Currency<T::AccountId>>::Balance: Decode,
	T::KickThreshold: Get<u32>,
	T::MinEligibleCollators: Get<u32>,
	T::MaxCandidates: Get<u32>,
	T::ValidatorRegistration: ValidatorRegistration<T::AccountId>,
	T::PotId: Get<frame_support::PalletId>,
{
	fn new_session(_: u32) -> Option<Vec<T::AccountId>> {
		for (who, _) in Self::candidates() {
			let last: u32 = get(&("collators:last", &who));
			if Self::eligible() > T::MinEligibleCollators::get() && Self::now().saturating_sub(last) >= T::KickThreshold::get() {
				let _ = Self::remove(&who);
			}
		}
		let mut list = Self::invulnerables();
		list.extend(Self::candidates().into_iter().map(|c| c.0));
		Some(list)
	}
}
impl<T: Config> pallet_authorship::EventHandler<T::AccountId> for Pallet<T>
where
	T::Currency: ReservableCurrency<T::AccountId>,
	<T::Currency as Currency<T::AccountId>>::Balance: Decode + core::ops::Div<Output = <T::Currency as Currency<T::AccountId>>::Balance> + From<u32>,
	T::KickThreshold: Get<u32>,
	T::MinEligibleCollators: Get<u32>,
	T::MaxCandidates: Get<u32>,
	T::ValidatorRegistration: ValidatorRegistration<T::AccountId>,
	T::PotId: Get<frame_support::PalletId>,
{
	fn note_author(who: T::AccountId) {
		use shim_base::traits::Saturating;
		let pot = Self::account_id();
		let reward = T::Currency::free_balance(&pot).saturating_sub(T::Currency::minimum_balance()) / 2u32.into();
		let _ = T::Currency::transfer(&pot, &who, reward, ExistenceRequirement::KeepAlive);
		ext::put(&("collators:last", &who).encode(), Self::now().encode());
	}
}
