//! What the chain itself asks of every signed transaction.
use super::*;
use frame_support::dispatch::{DispatchClass, DispatchInfo, PostDispatchInfo};
use frame_support::extension::{implied, Era, Extension, Implied, Refused, Wish};
use frame_support::pallet_prelude::Get;
use frame_support::weights::Weight;
use shim_base::arith::SaturatedConversion;

macro_rules! plain {
	($($n:ident;)*) => { $(
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn new() -> Self {
				$n(PhantomData)
			}
		}
	)* };
}
plain!(CheckNonZeroSender; CheckSpecVersion; CheckTxVersion; CheckGenesis; CheckWeight;);

impl<T: Config> Extension for CheckNonZeroSender<T> {
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(_: &Wish) -> Self {
		Self::new()
	}
	fn before(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		match who.encode().iter().all(|b| *b == 0) {
			true => Err(Refused::BadSigner),
			false => Ok(()),
		}
	}
}
impl<T: Config> Extension for CheckSpecVersion<T>
where
	T::Version: Get<sp_version::RuntimeVersion>,
{
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(_: &Wish) -> Self {
		Self::new()
	}
	fn implied(&self) -> Result<Implied, Refused> {
		implied("spec version", T::Version::get().spec_version)
	}
	fn before(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		Ok(())
	}
}
impl<T: Config> Extension for CheckTxVersion<T>
where
	T::Version: Get<sp_version::RuntimeVersion>,
{
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(_: &Wish) -> Self {
		Self::new()
	}
	fn implied(&self) -> Result<Implied, Refused> {
		implied("transaction version", T::Version::get().transaction_version)
	}
	fn before(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		Ok(())
	}
}
impl<T: Config> Extension for CheckGenesis<T> {
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(_: &Wish) -> Self {
		Self::new()
	}
	fn implied(&self) -> Result<Implied, Refused> {
		implied("genesis", BlockHash::<T>::get(BlockNumberFor::<T>::from(0u32)))
	}
	fn before(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		Ok(())
	}
}
pub struct CheckMortality<T>(pub Era, PhantomData<T>);
pub type CheckEra<T> = CheckMortality<T>;
impl<T: Config> Extension for CheckMortality<T> {
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(w: &Wish) -> Self {
		CheckMortality(w.era, PhantomData)
	}
	fn implied(&self) -> Result<Implied, Refused> {
		let birth: BlockNumberFor<T> = (self.0.birth(Pallet::<T>::block_number().saturated_into::<u64>()) as u32).into();
		if !BlockHash::<T>::contains_key(birth) {
			return Err(Refused::AncientBirthBlock);
		}
		implied("birth", BlockHash::<T>::get(birth))
	}
	fn before(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		Ok(())
	}
}
pub struct CheckNonce<T>(pub u32, PhantomData<T>);
impl<T: Config> Extension for CheckNonce<T> {
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(w: &Wish) -> Self {
		CheckNonce(w.nonce, PhantomData)
	}
	fn before(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfo, _: usize) -> Result<(), Refused> {
		let account = Account::<T>::get(who);
		if account.providers == 0 && account.sufficients == 0 {
			return Err(Refused::Payment);
		}
		let mut expected = T::Nonce::from(0u32);
		// without an order on the type: count up to it
		if account.nonce != T::Nonce::from(self.0) {
			for _ in 0..self.0 {
				if expected == account.nonce {
					return Err(Refused::Future);
				}
				expected += 1u32.into();
			}
			return Err(Refused::Stale);
		}
		Pallet::<T>::inc_account_nonce(who);
		Ok(())
	}
}
fn place(c: DispatchClass) -> usize {
	c as usize
}
impl<T: Config> Extension for CheckWeight<T> {
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type Pre = ();
	fn written(_: &Wish) -> Self {
		Self::new()
	}
	fn before(self, _: &T::AccountId, _: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<(), Refused> {
		let full = Err(Refused::ExhaustsResources);
		let (limits, length) = (T::BlockWeights::get(), T::BlockLength::get());
		let of = limits.get(info.class);
		if of.max_extrinsic.is_some_and(|m| info.weight.any_gt(m)) {
			return full;
		}
		let long = AllExtrinsicsLen::<T>::get().saturating_add(len as u32);
		if long > length.max[place(info.class)] {
			return full;
		}
		let mut used = BlockWeight::<T>::get();
		let class = &mut used[place(info.class)];
		*class = class.saturating_add(info.weight.saturating_add(of.base_extrinsic));
		if of.max_total.is_some_and(|m| class.any_gt(m)) {
			return full;
		}
		let own = *class;
		if used.iter().fold(Weight::zero(), |a, b| a.saturating_add(*b)).any_gt(limits.max_block) && of.reserved.is_some_and(|r| own.any_gt(r)) {
			return full;
		}
		BlockWeight::<T>::put(used);
		AllExtrinsicsLen::<T>::put(long);
		Ok(())
	}
	fn after(_: (), info: &DispatchInfo, post: &PostDispatchInfo, _: usize) {
		let unspent = info.weight.saturating_sub(post.calc_actual_weight(info));
		BlockWeight::<T>::mutate(|u| u[place(info.class)] = u[place(info.class)].saturating_sub(unspent));
	}
}
