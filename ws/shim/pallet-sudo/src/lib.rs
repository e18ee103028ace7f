//! One key that may dispatch as root.
pub use pallet::*;
pub mod config_preludes {
	pub struct TestDefaultConfig;
}
pub trait DefaultConfig {}
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::traits::UnfilteredDispatchable;
	use frame_system::pallet_prelude::*;
	use frame_system::RawOrigin;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + frame_support::dispatch::GetDispatchInfo;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Key<T: Config> = StorageValue<_, T::AccountId>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: DispatchResult },
		KeyChanged { new: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Key::<T>::get() == Some(who), Error::<T>::RequireSudo);
			let r = call.dispatch_bypass_filter(RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: r.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
		#[pallet::call_index(2)]
		pub fn set_key(origin: OriginFor<T>, new: T::AccountId) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Key::<T>::get() == Some(who), Error::<T>::RequireSudo);
			Key::<T>::put(&new);
			Self::deposit_event(Event::KeyChanged { new });
			Ok(Pays::No.into())
		}
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub key: Option<T::AccountId>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			if let Some(k) = &self.key {
				Key::<T>::put(k);
			}
		}
	}
}
