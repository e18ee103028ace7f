//! Block authorship: the author is whatever the harness says.
frame_support::stub_pallet! {
	types {
		FindAuthor,
		EventHandler
	}
	consts {  }
	calls {

	}
}

/// Somebody who wants to know who produced a block.
pub trait EventHandler<A> {
	fn note_author(who: A);
}
impl<A> EventHandler<A> for () {
	fn note_author(_: A) {}
}
impl<A, X: EventHandler<A>> EventHandler<A> for (X,) {
	fn note_author(who: A) {
		X::note_author(who)
	}
}
impl<A: Clone, X: EventHandler<A>, Y: EventHandler<A>> EventHandler<A> for (X, Y) {
	fn note_author(who: A) {
		X::note_author(who.clone());
		Y::note_author(who)
	}
}

pub const AUTHOR_KEY: &[u8] = b"authorship:author";
impl<T: Config> Pallet<T> {
	pub fn author() -> Option<T::AccountId> {
		shim_base::ext::get(AUTHOR_KEY).and_then(|v| parity_scale_codec::Decode::decode(&mut &v[..]).ok())
	}
	/// A block begins in the given slot; tells whose it is.
	pub fn begin(slot: u64) -> Option<T::AccountId>
	where
		T::FindAuthor: frame_support::traits::FindAuthor<T::AccountId>,
		T::EventHandler: EventHandler<T::AccountId>,
	{
		let who = <T::FindAuthor as frame_support::traits::FindAuthor<T::AccountId>>::find_author(slot)?;
		T::EventHandler::note_author(who.clone());
		Some(who)
	}
}
