//! Batches; of the rest the names only.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
}
/// What a batch itself takes.
fn overhead(n: usize) -> frame_support::weights::Weight {
	frame_support::weights::Weight::from_parts(5_312_000 + 4_000_000 * n as u64, 3997)
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::dispatch::{extract_actual_weight, DispatchClass, Dispatchable, GetDispatchInfo, PostDispatchInfo};
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo;
		type PalletsOrigin;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);

	fn together<C: GetDispatchInfo>(calls: &[C]) -> (Weight, DispatchClass) {
		let infos: Vec<_> = calls.iter().map(|c| c.get_dispatch_info()).collect();
		let weight = infos.iter().fold(overhead(calls.len()), |a, i| a.saturating_add(i.weight));
		let class = if infos.iter().all(|i| i.class == DispatchClass::Operational) && !infos.is_empty() { DispatchClass::Operational } else { DispatchClass::Normal };
		(weight, class)
	}
	/// Runs calls one after the other; whether to go on after a failure is up to the caller.
	fn each<T: Config>(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>, go_on: bool) -> (Weight, Result<(), DispatchError>) {
		let mut weight = overhead(calls.len());
		let mut outcome = Ok(());
		for c in calls {
			let info = c.get_dispatch_info();
			let r = c.dispatch(origin.clone());
			weight = weight.saturating_add(extract_actual_weight(&r, &info));
			if let Err(e) = r {
				outcome = Err(e.error);
				if !go_on {
					break;
				}
			}
		}
		(weight, outcome)
	}

	#[pallet::call]
	impl<T: Config> Pallet<T>
	{
		#[pallet::call_index(0)]
		#[pallet::weight(together(calls))]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let (weight, _) = each::<T>(origin, calls, false);
			Ok(Some(weight).into())
		}
		#[pallet::call_index(1)]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let _ = (origin, index, call);
			Err("not modelled".into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(together(calls))]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			use frame_support::dispatch::WithPostDispatchInfo;
			let (weight, outcome) = each::<T>(origin, calls, false);
			outcome.map(|_| Some(weight).into()).map_err(|e| e.with_weight(weight))
		}
		#[pallet::call_index(3)]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Vec<u8>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let _ = (origin, as_origin, call);
			Err("not modelled".into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(together(calls))]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let (weight, _) = each::<T>(origin, calls, true);
			Ok(Some(weight).into())
		}
		#[pallet::call_index(5)]
		pub fn with_weight(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, weight: Weight) -> DispatchResult {
			let _ = (origin, call, weight);
			Err("not modelled".into())
		}
	}
}
