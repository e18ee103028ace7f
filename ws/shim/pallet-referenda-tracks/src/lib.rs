//! Tracks of referenda kept in storage, each selected by one origin.
pub use frame_support::instances::*;
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
#[frame_support::pallet]
pub mod pallet {
	use fc_traits_tracks::MutateTracks;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::EnsureOriginWithArg;
	use frame_system::pallet_prelude::*;
	use pallet_referenda::{BalanceOf, PalletsOriginOf, Track, TrackInfo, TracksInfo};
	use std::borrow::Cow;

	pub type TrackInfoOf<T, I = ()> = TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
	pub type TrackIdOf<T, I = ()> = <T as Config<I>>::TrackId;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config + pallet_referenda::Config<I> {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type TrackId: Parameter + Member + Ord + Copy + MaxEncodedLen;
		type MaxTracks: Get<u32>;
		type AdminOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type UpdateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, <Self as Config<I>>::TrackId>;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Tracks<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, <T as Config<I>>::TrackId, TrackInfoOf<T, I>>;
	#[pallet::storage]
	pub type OriginToTrackId<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, PalletsOriginOf<T>, <T as Config<I>>::TrackId>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { id: <T as Config<I>>::TrackId },
		Updated { id: <T as Config<I>>::TrackId },
		Removed { id: <T as Config<I>>::TrackId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		MaxTracksExceeded,
		TrackIdNotFound,
		TrackIdAlreadyExisting,
		CannotRemove,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		pub fn insert(origin: OriginFor<T>, id: <T as Config<I>>::TrackId, info: TrackInfoOf<T, I>, pallet_origin: PalletsOriginOf<T>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			Self::do_insert(id, info, pallet_origin)
		}
		#[pallet::call_index(1)]
		pub fn update(origin: OriginFor<T>, id: <T as Config<I>>::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
			<T::UpdateOrigin as EnsureOriginWithArg<_, _>>::ensure_origin(origin, &id)?;
			Self::do_update(id, info)
		}
		#[pallet::call_index(2)]
		pub fn remove(origin: OriginFor<T>, id: <T as Config<I>>::TrackId, pallet_origin: PalletsOriginOf<T>) -> DispatchResult {
			T::AdminOrigin::ensure_origin(origin)?;
			Self::do_remove(id, pallet_origin)
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		fn do_insert(id: <T as Config<I>>::TrackId, info: TrackInfoOf<T, I>, origin: PalletsOriginOf<T>) -> DispatchResult {
			ensure!(!Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdAlreadyExisting);
			ensure!((Tracks::<T, I>::iter().count() as u32) < T::MaxTracks::get(), Error::<T, I>::MaxTracksExceeded);
			Tracks::<T, I>::insert(id, info);
			OriginToTrackId::<T, I>::insert(origin, id);
			Self::deposit_event(Event::Created { id });
			Ok(())
		}
		fn do_update(id: <T as Config<I>>::TrackId, info: TrackInfoOf<T, I>) -> DispatchResult {
			ensure!(Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdNotFound);
			Tracks::<T, I>::insert(id, info);
			Self::deposit_event(Event::Updated { id });
			Ok(())
		}
		fn do_remove(id: <T as Config<I>>::TrackId, origin: PalletsOriginOf<T>) -> DispatchResult {
			ensure!(Tracks::<T, I>::contains_key(id), Error::<T, I>::TrackIdNotFound);
			Tracks::<T, I>::remove(id);
			OriginToTrackId::<T, I>::remove(origin);
			Self::deposit_event(Event::Removed { id });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
		type Id = <T as Config<I>>::TrackId;
		type RuntimeOrigin = PalletsOriginOf<T>;
		fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, BalanceOf<T, I>, BlockNumberFor<T>>>> {
			Tracks::<T, I>::iter().map(|(id, info)| Cow::Owned(Track { id, info })).collect::<Vec<_>>().into_iter()
		}
		fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()> {
			OriginToTrackId::<T, I>::get(origin).ok_or(())
		}
	}
	impl<T: Config<I>, I: 'static> MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I> {
		fn insert(id: Self::Id, info: TrackInfoOf<T, I>, o: Self::RuntimeOrigin) -> DispatchResult {
			Self::do_insert(id, info, o)
		}
		fn update(id: Self::Id, info: TrackInfoOf<T, I>) -> DispatchResult {
			Self::do_update(id, info)
		}
		fn remove(id: Self::Id, o: Self::RuntimeOrigin) -> DispatchResult {
			Self::do_remove(id, o)
		}
	}
}
