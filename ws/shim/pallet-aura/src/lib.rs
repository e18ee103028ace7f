//! Block production in turns.
frame_support::stub_pallet! {
	types {
		AuthorityId,
		DisabledValidators,
		MaxAuthorities,
		AllowMultipleBlocksPerSlot,
		SlotDuration
	}
	consts {  }
	calls {

	}
}
const KEYS: &[u8] = b"aura:authorities";
impl<T: Config> Pallet<T> {
	/// The keys whose turn it is, one after the other.
	pub fn keys() -> Vec<Vec<u8>> {
		shim_base::ext::get(KEYS).and_then(|v| parity_scale_codec::Decode::decode(&mut &v[..]).ok()).unwrap_or_default()
	}
}
impl<T: Config> pallet_session::OneSessionHandler for Pallet<T> {
	fn on_new_session(keys: &[Vec<u8>]) {
		shim_base::ext::put(KEYS, parity_scale_codec::Encode::encode(&keys.to_vec()));
	}
}
impl<T: Config> frame_support::traits::FindAuthor<u32> for Pallet<T> {
	fn find_author(slot: u64) -> Option<u32> {
		let n = Self::keys().len() as u64;
		(n > 0).then(|| (slot % n) as u32)
	}
}
