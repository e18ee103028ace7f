//! Authentication: challenges and the names around them.
pub use frame_support_procedural::composite_authenticator;
pub type Challenge = [u8; 32];
pub type DeviceId = [u8; 32];
pub type HashedUserId = [u8; 32];
pub type AuthorityId = [u8; 32];
pub trait Challenger {
	type Context;
	fn generate(cx: &Self::Context) -> Challenge;
	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
		Self::generate(cx).eq(challenge).then_some(())
	}
}
pub mod util {
	pub struct AuthorityFromPalletId<P>(core::marker::PhantomData<P>);
	pub mod dummy {
		pub struct Dummy<A>(core::marker::PhantomData<A>);
	}
}
pub struct Composite<A, L>(core::marker::PhantomData<(A, L)>);
/// The source of an authenticator's challenges.
pub trait Challenged {
	type Challenger: Challenger;
}
impl<A, X: Challenged> Challenged for Composite<A, (X,)> {
	type Challenger = X::Challenger;
}
