//! The id of this chain.
frame_support::stub_pallet! {
	types {
		
	}
	consts {  }
	calls {

	}
}

impl<T: Config> Pallet<T> {
	pub fn parachain_id() -> cumulus_primitives_core::ParaId {
		2281.into()
	}
}
impl<T: Config> frame_support::traits::Get<cumulus_primitives_core::ParaId> for Pallet<T> {
	fn get() -> cumulus_primitives_core::ParaId {
		Self::parachain_id()
	}
}
