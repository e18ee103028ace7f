use std::marker::PhantomData;
pub enum PaymentStatus {
	InProgress,
	Unknown,
	Success,
	Failure,
}
pub trait Pay {
	type Balance;
	type Beneficiary;
	type AssetKind;
	type Id;
	type Error;
}
pub struct PayFromAccount<F, A>(PhantomData<(F, A)>);
