//! WebAuthn; names only.
pub struct Authenticator<Cx, A>(core::marker::PhantomData<(Cx, A)>);
impl<Cx: fc_traits_authn::Challenger, A> fc_traits_authn::Challenged for Authenticator<Cx, A> {
	type Challenger = Cx;
}
