//! Calls dispatched at later blocks. Follows the original: agenda per block with holes, names resolved
//! through a lookup, priority order within a block, failing calls are reported and dropped.
use frame_support::traits::{schedule, Bounded};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
pub type TaskName = [u8; 32];
pub type TaskAddress<N> = (N, u32);
pub type ScheduledOf<T> = Scheduled<
	Bounded<<T as Config>::RuntimeCall, <T as frame_system::Config>::Hashing>,
	frame_system::pallet_prelude::BlockNumberFor<T>,
	<T as Config>::PalletsOrigin,
>;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Scheduled<Call, N, O> {
	pub maybe_id: Option<TaskName>,
	pub priority: schedule::Priority,
	pub call: Call,
	pub maybe_periodic: Option<schedule::Period<N>>,
	pub origin: O,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::dispatch::{Dispatchable, GetDispatchInfo};
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{schedule::DispatchTime, CallerTrait, OriginTrait, PrivilegeCmp, QueryPreimage, StorePreimage};
	use frame_system::pallet_prelude::*;
	use shim_base::arith::{One, Saturating};
	use std::cmp::Ordering;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin>
			+ From<Self::PalletsOrigin>
			+ IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: From<frame_system::RawOrigin<Self::AccountId>> + CallerTrait<Self::AccountId> + MaxEncodedLen;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>;
		type MaximumWeight: Get<Weight>;
		type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type OriginPrivilegeCmp: PrivilegeCmp<Self::PalletsOrigin>;
		type MaxScheduledPerBlock: Get<u32>;
		type WeightInfo;
		type Preimages: QueryPreimage<H = Self::Hashing> + StorePreimage;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type IncompleteSince<T: Config> = StorageValue<_, BlockNumberFor<T>>;
	#[pallet::storage]
	pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<ScheduledOf<T>>>, ValueQuery>;
	#[pallet::storage]
	pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, TaskName, TaskAddress<BlockNumberFor<T>>>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Scheduled { when: BlockNumberFor<T>, index: u32 },
		Canceled { when: BlockNumberFor<T>, index: u32 },
		Dispatched { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName>, result: DispatchResult },
		CallUnavailable { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName> },
	}
	#[pallet::error]
	pub enum Error<T> {
		FailedToSchedule,
		NotFound,
		TargetBlockNumberInPast,
		RescheduleNoChange,
		Named,
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			Self::service(now);
			Weight::zero()
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		pub fn schedule(
			origin: OriginFor<T>,
			when: BlockNumberFor<T>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			call: Box<<T as Config>::RuntimeCall>,
		) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from(origin);
			Self::do_schedule(DispatchTime::At(when), maybe_periodic, priority, origin.caller().clone(), T::Preimages::bound(*call)?, None)?;
			Ok(())
		}
		#[pallet::call_index(1)]
		pub fn cancel(origin: OriginFor<T>, when: BlockNumberFor<T>, index: u32) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from(origin);
			Self::do_cancel(Some(origin.caller().clone()), (when, index))
		}
		#[pallet::call_index(2)]
		pub fn schedule_named(
			origin: OriginFor<T>,
			id: TaskName,
			when: BlockNumberFor<T>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			call: Box<<T as Config>::RuntimeCall>,
		) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from(origin);
			Self::do_schedule_named(id, DispatchTime::At(when), maybe_periodic, priority, origin.caller().clone(), T::Preimages::bound(*call)?)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		pub fn cancel_named(origin: OriginFor<T>, id: TaskName) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin.clone())?;
			let origin = <T as Config>::RuntimeOrigin::from(origin);
			Self::do_cancel_named(Some(origin.caller().clone()), id)
		}
	}
	impl<T: Config> Pallet<T> {
		fn resolve_time(when: DispatchTime<BlockNumberFor<T>>) -> Result<BlockNumberFor<T>, DispatchError> {
			let now = frame_system::Pallet::<T>::block_number();
			let when = match when {
				DispatchTime::At(x) => x,
				// The current block has already completed its scheduled tasks, so schedule the task at
				// lest one block after this current block.
				DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()),
			};
			if when <= now {
				return Err(Error::<T>::TargetBlockNumberInPast.into());
			}
			Ok(when)
		}
		fn place_task(when: BlockNumberFor<T>, what: ScheduledOf<T>) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
			let name = what.maybe_id;
			let mut agenda = Agenda::<T>::get(when);
			let index = if (agenda.len() as u32) < T::MaxScheduledPerBlock::get() {
				agenda.push(Some(what));
				agenda.len() as u32 - 1
			} else if let Some(hole) = agenda.iter().position(|i| i.is_none()) {
				agenda[hole] = Some(what);
				hole as u32
			} else {
				return Err(DispatchError::Exhausted);
			};
			Agenda::<T>::insert(when, agenda);
			if let Some(n) = name {
				Lookup::<T>::insert(n, (when, index));
			}
			Self::deposit_event(Event::Scheduled { when, index });
			Ok((when, index))
		}
		fn cleanup_agenda(when: BlockNumberFor<T>) {
			let mut agenda = Agenda::<T>::get(when);
			while matches!(agenda.last(), Some(None)) {
				agenda.pop();
			}
			if agenda.is_empty() {
				Agenda::<T>::remove(when)
			} else {
				Agenda::<T>::insert(when, agenda)
			}
		}
		fn do_schedule(
			when: DispatchTime<BlockNumberFor<T>>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			origin: T::PalletsOrigin,
			call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
			maybe_id: Option<TaskName>,
		) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
			let when = Self::resolve_time(when)?;
			let lookup_hash = call.lookup_hash();
			let maybe_periodic = maybe_periodic.filter(|p| p.1 > 1 && p.0 > 0u32.into()).map(|(p, c)| (p, c - 1));
			let res = Self::place_task(when, Scheduled { maybe_id, priority, call, maybe_periodic, origin })?;
			if let Some(h) = lookup_hash {
				T::Preimages::request(&h);
			}
			Ok(res)
		}
		fn do_cancel(origin: Option<T::PalletsOrigin>, (when, index): TaskAddress<BlockNumberFor<T>>) -> Result<(), DispatchError> {
			let scheduled = Agenda::<T>::try_mutate(when, |agenda| match agenda.get_mut(index as usize) {
				None => Ok(None),
				Some(s) => {
					if let (Some(o), Some(s)) = (&origin, s.as_ref()) {
						if matches!(T::OriginPrivilegeCmp::cmp_privilege(o, &s.origin), Some(Ordering::Less) | None) {
							return Err(DispatchError::BadOrigin);
						}
					}
					Ok(s.take())
				}
			})?;
			if let Some(s) = scheduled {
				T::Preimages::drop(&s.call);
				if let Some(id) = s.maybe_id {
					Lookup::<T>::remove(id);
				}
				Self::cleanup_agenda(when);
				Self::deposit_event(Event::Canceled { when, index });
				Ok(())
			} else {
				Err(Error::<T>::NotFound.into())
			}
		}
		fn do_schedule_named(
			id: TaskName,
			when: DispatchTime<BlockNumberFor<T>>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			origin: T::PalletsOrigin,
			call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
		) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
			if Lookup::<T>::contains_key(id) {
				return Err(Error::<T>::FailedToSchedule.into());
			}
			Self::do_schedule(when, maybe_periodic, priority, origin, call, Some(id))
		}
		fn do_cancel_named(origin: Option<T::PalletsOrigin>, id: TaskName) -> DispatchResult {
			match Lookup::<T>::get(id) {
				Some(a) => Self::do_cancel(origin, a),
				None => Err(Error::<T>::NotFound.into()),
			}
		}
		fn do_reschedule(address: TaskAddress<BlockNumberFor<T>>, new: BlockNumberFor<T>) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
			if new == address.0 {
				return Err(Error::<T>::RescheduleNoChange.into());
			}
			let task = Agenda::<T>::try_mutate(address.0, |agenda| agenda.get_mut(address.1 as usize).and_then(Option::take).ok_or(Error::<T>::NotFound))?;
			Self::cleanup_agenda(address.0);
			Self::deposit_event(Event::Canceled { when: address.0, index: address.1 });
			Self::place_task(new, task)
		}
		fn service(now: BlockNumberFor<T>) {
			let mut when = IncompleteSince::<T>::take().unwrap_or(now);
			while when <= now {
				let agenda = Agenda::<T>::get(when);
				let mut order: Vec<(u32, u8)> =
					agenda.iter().enumerate().filter_map(|(i, s)| s.as_ref().map(|s| (i as u32, s.priority))).collect();
				order.sort_by_key(|k| k.1);
				for (index, _) in order {
					// the agenda may have been changed by an earlier task of this block
					let task = {
						let mut a = Agenda::<T>::get(when);
						let t = a.get_mut(index as usize).and_then(Option::take);
						Agenda::<T>::insert(when, a);
						t
					};
					let Some(task) = task else { continue };
					if let Some(id) = task.maybe_id {
						Lookup::<T>::remove(id);
					}
					let call = match T::Preimages::peek(&task.call) {
						Ok((c, _)) => c,
						Err(_) => {
							Self::deposit_event(Event::CallUnavailable { task: (when, index), id: task.maybe_id });
							continue;
						}
					};
					let origin: <T as Config>::RuntimeOrigin = task.origin.clone().into();
					let result = Dispatchable::dispatch(call, origin).map(|_| ()).map_err(|e| e.error);
					Self::deposit_event(Event::Dispatched { task: (when, index), id: task.maybe_id, result });
					match task.maybe_periodic {
						Some((period, count)) => {
							let next = Scheduled { maybe_periodic: (count > 1).then(|| (period, count - 1)), ..task };
							let _ = Self::place_task(now.saturating_add(period), next);
						}
						None => T::Preimages::drop(&task.call),
					}
				}
				Self::cleanup_agenda(when);
				when.saturating_inc();
			}
		}
	}
	impl<T: Config> schedule::v3::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
		type Address = TaskAddress<BlockNumberFor<T>>;
		type Hasher = T::Hashing;
		fn schedule(
			when: DispatchTime<BlockNumberFor<T>>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			origin: T::PalletsOrigin,
			call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
		) -> Result<Self::Address, DispatchError> {
			Self::do_schedule(when, maybe_periodic, priority, origin, call, None)
		}
		fn cancel(a: Self::Address) -> Result<(), DispatchError> {
			Self::do_cancel(None, a).map_err(|_| DispatchError::Unavailable)
		}
		fn reschedule(a: Self::Address, when: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
			let when = Self::resolve_time(when)?;
			Self::do_reschedule(a, when)
		}
		fn next_dispatch_time((when, i): Self::Address) -> Result<BlockNumberFor<T>, DispatchError> {
			Agenda::<T>::get(when).get(i as usize).and_then(|s| s.as_ref()).map(|_| when).ok_or(DispatchError::Unavailable)
		}
	}
	impl<T: Config> schedule::v3::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
		type Address = TaskAddress<BlockNumberFor<T>>;
		type Hasher = T::Hashing;
		fn schedule_named(
			id: TaskName,
			when: DispatchTime<BlockNumberFor<T>>,
			maybe_periodic: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: schedule::Priority,
			origin: T::PalletsOrigin,
			call: Bounded<<T as Config>::RuntimeCall, T::Hashing>,
		) -> Result<Self::Address, DispatchError> {
			Self::do_schedule_named(id, when, maybe_periodic, priority, origin, call)
		}
		fn cancel_named(id: TaskName) -> Result<(), DispatchError> {
			Self::do_cancel_named(None, id).map_err(|_| DispatchError::Unavailable)
		}
		fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
			let when = Self::resolve_time(when)?;
			let a = Lookup::<T>::get(id).ok_or(Error::<T>::NotFound)?;
			Self::do_reschedule(a, when)
		}
		fn next_dispatch_time(id: TaskName) -> Result<BlockNumberFor<T>, DispatchError> {
			Lookup::<T>::get(id)
				.and_then(|(when, i)| Agenda::<T>::get(when).get(i as usize).and_then(|s| s.as_ref()).map(|_| when))
				.ok_or(DispatchError::Unavailable)
		}
	}
}
