//! Preimages kept by hash while somebody requests them.
pub use pallet::*;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{Consideration, Currency, FetchResult, Footprint, QueryPreimage, StorePreimage};
	use frame_system::pallet_prelude::*;
	use shim_base::traits::Hash;
	use std::borrow::Cow;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type Currency;
		type ManagerOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type Consideration;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type PreimageFor<T: Config> = StorageMap<_, Identity, T::Hash, Vec<u8>>;
	/// (noted by somebody, requests)
	#[pallet::storage]
	pub type StatusFor<T: Config> = StorageMap<_, Identity, T::Hash, (bool, u32), ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Noted { hash: T::Hash },
		Requested { hash: T::Hash },
		Cleared { hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooBig,
		AlreadyNoted,
		NotAuthorized,
		NotNoted,
		Requested,
		NotRequested,
	}
	#[pallet::composite_enum]
	pub enum HoldReason {
		Preimage,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_signed_or_root(origin)?;
			let h = T::Hashing::hash(&bytes);
			PreimageFor::<T>::insert(h, bytes);
			StatusFor::<T>::mutate(h, |s| s.0 = true);
			Self::deposit_event(Event::Noted { hash: h });
			Ok(().into())
		}
		#[pallet::call_index(1)]
		pub fn unnote_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			ensure_signed_or_root(origin)?;
			ensure!(StatusFor::<T>::get(hash).0, Error::<T>::NotNoted);
			StatusFor::<T>::mutate(hash, |s| s.0 = false);
			Self::settle(&hash);
			Ok(())
		}
		#[pallet::call_index(2)]
		pub fn request_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			T::ManagerOrigin::ensure_origin(origin)?;
			<Self as QueryPreimage>::request(&hash);
			Ok(())
		}
		#[pallet::call_index(3)]
		pub fn unrequest_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
			T::ManagerOrigin::ensure_origin(origin)?;
			<Self as QueryPreimage>::unrequest(&hash);
			Ok(())
		}
	}
	impl<T: Config> Pallet<T> {
		fn settle(h: &T::Hash) {
			if StatusFor::<T>::get(h) == (false, 0) {
				StatusFor::<T>::remove(h);
				PreimageFor::<T>::remove(h);
			}
		}
	}
	impl<T: Config> QueryPreimage for Pallet<T> {
		type H = T::Hashing;
		fn len(h: &T::Hash) -> Option<u32> {
			PreimageFor::<T>::get(h).map(|b| b.len() as u32)
		}
		fn fetch(h: &T::Hash, len: Option<u32>) -> FetchResult {
			match PreimageFor::<T>::get(h) {
				Some(b) if len.map_or(true, |l| l as usize == b.len()) => Ok(Cow::Owned(b)),
				_ => Err(DispatchError::Unavailable),
			}
		}
		fn is_requested(h: &T::Hash) -> bool {
			StatusFor::<T>::get(h).1 > 0
		}
		fn request(h: &T::Hash) {
			StatusFor::<T>::mutate(h, |s| s.1 += 1);
		}
		fn unrequest(h: &T::Hash) {
			StatusFor::<T>::mutate(h, |s| s.1 = s.1.saturating_sub(1));
			Self::settle(h);
		}
	}
	impl<T: Config> StorePreimage for Pallet<T> {
		const MAX_LENGTH: usize = 4 * 1024 * 1024;
		fn note(bytes: Cow<[u8]>) -> Result<T::Hash, DispatchError> {
			let h = T::Hashing::hash(&bytes);
			PreimageFor::<T>::insert(h, bytes.into_owned());
			StatusFor::<T>::mutate(h, |s| s.1 += 1);
			Ok(h)
		}
	}
}
