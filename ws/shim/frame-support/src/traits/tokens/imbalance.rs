use std::marker::PhantomData;
pub trait TryDrop: Sized {
	fn try_drop(self) -> Result<(), Self>;
}
pub enum SameOrOther<A, B> {
	None,
	Same(A),
	Other(B),
}
pub enum SignedImbalance<P, N> {
	Positive(P),
	Negative(N),
}
pub trait Imbalance<Balance> {
	fn peek(&self) -> Balance;
}
pub trait OnUnbalanced<I> {
	fn on_unbalanceds(amounts: impl Iterator<Item = I>)
	where
		Self: Sized,
	{
		for a in amounts {
			Self::on_unbalanced(a)
		}
	}
	fn on_unbalanced(amount: I) {
		Self::on_nonzero_unbalanced(amount)
	}
	fn on_nonzero_unbalanced(amount: I) {
		drop(amount)
	}
}
impl<I> OnUnbalanced<I> for () {}
/// Credits an account with what is left over.
pub struct ResolveTo<AccountId, F>(PhantomData<(AccountId, F)>);
impl<A, G: shim_base::traits::Get<A>, F: crate::traits::fungible::Balanced<A>> OnUnbalanced<crate::traits::fungible::Credit<A, F>> for ResolveTo<G, F>
where
	G: shim_base::traits::Get<A>,
{
	fn on_nonzero_unbalanced(c: crate::traits::fungible::Credit<A, F>) {
		let _ = F::resolve(&G::get(), c);
	}
}
pub struct ResolveAssetTo<AccountId, F>(PhantomData<(AccountId, F)>);
