//! Pass accounts: who registers and what it costs.
use core::marker::PhantomData;
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use frame_support::extension::{Extension, Implied, Refused, Wish};
use parity_scale_codec::{Decode, Encode};
use frame_support::traits::{EnsureOriginWithArg, Get};
use fc_traits_authn::HashedUserId;
frame_support::stub_pallet! {
	types {
		RuntimeEvent, RuntimeCall, Currency, WeightInfo, Authenticator, PalletsOrigin, PalletId, MaxSessionDuration,
		RegisterOrigin: [frame_support::traits::EnsureOriginWithArg<<Self as frame_system::Config>::RuntimeOrigin, [u8; 32], Success = Option<DepositInformation<Self>>>],
		Scheduler
	}
	consts { }
	calls {
		0 register(user: [u8; 32], attestation: Vec<u8>);
		#[pallet::feeless_if(|_: &OriginFor<T>, _: &[u8; 32], credential: &Vec<u8>, _: &u32| credential == VALID)]
		3 authenticate(device: [u8; 32], credential: Vec<u8>, duration: u32);
		5 add_device(attestation: Vec<u8>);
		6 add_session_key(session: T::AccountId, duration: u32);
	}
}
pub type SubstrateWeight<T> = weights::SubstrateWeight<T>;
/// Who pays, how much and to whom.
pub type DepositInformation<T> = (<T as frame_system::Config>::AccountId, u128, <T as frame_system::Config>::AccountId);
pub struct EnsureSignedPays<T, Deposit, Dest>(PhantomData<(T, Deposit, Dest)>);
impl<T, Deposit, Dest> EnsureOriginWithArg<<T as frame_system::Config>::RuntimeOrigin, HashedUserId> for EnsureSignedPays<T, Deposit, Dest>
where
	T: frame_system::Config,
	Deposit: Get<u128>,
	Dest: Get<<T as frame_system::Config>::AccountId>,
{
	type Success = Option<DepositInformation<T>>;
	fn try_origin(o: <T as frame_system::Config>::RuntimeOrigin, _: &HashedUserId) -> Result<Self::Success, <T as frame_system::Config>::RuntimeOrigin> {
		use frame_support::traits::OriginTrait;
		match o.as_signer() {
			Some(who) => Ok(Some((who.clone(), Deposit::get(), Dest::get()))),
			None => Err(o),
		}
	}
}
/// Stands for a credential that checks out.
pub const VALID: &[u8] = b"valid";
/// The account a session key acts for is noted under this and the key.
pub const SESSIONS: &[u8] = b"pass sessions";
pub fn session_of<A: Encode + Decode>(key: &A) -> Option<A> {
	frame_support::storage::unhashed::get_raw(&(SESSIONS, key).encode()).and_then(|v| A::decode(&mut &v[..]).ok())
}
/// Fees of a session key's transactions are its account's.
pub struct ChargeTransactionToPassAccount<S, T, I>(S, PhantomData<(T, I)>);
impl<S: Extension<AccountId = T::AccountId>, T: frame_system::Config, I> Extension for ChargeTransactionToPassAccount<S, T, I> {
	type AccountId = T::AccountId;
	type Call = S::Call;
	type Pre = S::Pre;
	fn written(w: &Wish) -> Self {
		ChargeTransactionToPassAccount(S::written(w), PhantomData)
	}
	fn implied(&self) -> Result<Implied, Refused> {
		self.0.implied()
	}
	fn before(self, who: &T::AccountId, call: &S::Call, info: &DispatchInfo, len: usize) -> Result<S::Pre, Refused> {
		self.0.before(&session_of(who).unwrap_or_else(|| who.clone()), call, info, len)
	}
	fn after(pre: S::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
		S::after(pre, info, post, len)
	}
}
