//! Sessions: those chosen produce blocks one session later.
use frame_support::traits::{FindAuthor, Get, ValidatorRegistration};
use parity_scale_codec::{Decode, Encode};
use shim_base::ext;

frame_support::stub_pallet! {
	types {
		RuntimeEvent,
		ValidatorId,
		ValidatorIdOf,
		ShouldEndSession,
		NextSessionRotation,
		SessionManager,
		SessionHandler,
		Keys,
		WeightInfo
	}
	consts {  }
	calls {
		0 set_keys(keys: Vec<u8>, proof: Vec<u8>);
		1 purge_keys();
	}
}

pub trait ShouldEndSession<N> {
	fn should_end_session(now: N) -> bool;
}
pub struct PeriodicSessions<P, O>(core::marker::PhantomData<(P, O)>);
impl<P: Get<u32>, O: Get<u32>> ShouldEndSession<u32> for PeriodicSessions<P, O> {
	fn should_end_session(now: u32) -> bool {
		now >= O::get() && (now - O::get()) % P::get() == 0
	}
}
pub trait SessionManager<A> {
	fn new_session(index: u32) -> Option<Vec<A>>;
}
impl<A> SessionManager<A> for () {
	fn new_session(_: u32) -> Option<Vec<A>> {
		None
	}
}
/// Somebody who uses the keys of a session.
pub trait OneSessionHandler {
	fn on_new_session(keys: &[Vec<u8>]);
}
pub trait SessionHandler {
	fn on_new_session(keys: &[Vec<u8>]);
}
impl SessionHandler for () {
	fn on_new_session(_: &[Vec<u8>]) {}
}
impl<A: OneSessionHandler> SessionHandler for (A,) {
	fn on_new_session(keys: &[Vec<u8>]) {
		A::on_new_session(keys)
	}
}
impl<A: OneSessionHandler, B: OneSessionHandler> SessionHandler for (A, B) {
	fn on_new_session(keys: &[Vec<u8>]) {
		A::on_new_session(keys);
		B::on_new_session(keys)
	}
}

fn get<V: Decode + Default>(k: &impl Encode) -> V {
	ext::get(&k.encode()).and_then(|v| V::decode(&mut &v[..]).ok()).unwrap_or_default()
}
impl<T: Config> Pallet<T> {
	/// Those producing now.
	pub fn validators() -> Vec<T::AccountId> {
		get(&"session:validators")
	}
	pub fn current_index() -> u32 {
		get(&"session:index")
	}
	pub fn key_of(who: &T::AccountId) -> Option<Vec<u8>> {
		get(&("session:key", who))
	}
	pub fn put_key(who: &T::AccountId, key: Vec<u8>) {
		ext::put(&("session:key", who).encode(), Some(key).encode())
	}
	fn with_keys(list: Vec<T::AccountId>) -> Vec<(T::AccountId, Vec<u8>)> {
		list.into_iter().filter_map(|v| Self::key_of(&v).map(|k| (v, k))).collect()
	}
	/// The producers of the first two sessions.
	pub fn begin(list: Vec<T::AccountId>)
	where
		T::SessionHandler: SessionHandler,
	{
		let with = Self::with_keys(list);
		ext::put(&"session:queued".encode(), with.encode());
		Self::install(with);
	}
	fn install(with: Vec<(T::AccountId, Vec<u8>)>)
	where
		T::SessionHandler: SessionHandler,
	{
		let (who, keys): (Vec<T::AccountId>, Vec<Vec<u8>>) = with.into_iter().unzip();
		ext::put(&"session:validators".encode(), who.encode());
		<T::SessionHandler as SessionHandler>::on_new_session(&keys);
	}
	pub fn on_initialize(now: u32)
	where
		T::ShouldEndSession: ShouldEndSession<u32>,
		T::SessionManager: SessionManager<T::AccountId>,
		T::SessionHandler: SessionHandler,
	{
		if !T::ShouldEndSession::should_end_session(now) {
			return;
		}
		let queued: Vec<(T::AccountId, Vec<u8>)> = get(&"session:queued");
		let next = T::SessionManager::new_session(Self::current_index() + 2);
		let list = next.unwrap_or_else(|| queued.iter().map(|(v, _)| v.clone()).collect());
		Self::install(queued);
		ext::put(&"session:index".encode(), (Self::current_index() + 1).encode());
		ext::put(&"session:queued".encode(), Self::with_keys(list).encode());
	}
}
impl<T: Config> ValidatorRegistration<T::AccountId> for Pallet<T> {
	fn is_registered(who: &T::AccountId) -> bool {
		Self::key_of(who).is_some()
	}
}
pub struct FindAccountFromAuthorIndex<T, F>(core::marker::PhantomData<(T, F)>);
impl<T: Config, F: FindAuthor<u32>> FindAuthor<T::AccountId> for FindAccountFromAuthorIndex<T, F> {
	fn find_author(slot: u64) -> Option<T::AccountId> {
		Pallet::<T>::validators().get(F::find_author(slot)? as usize).cloned()
	}
}
