pub mod xcm_sender {
	pub struct NoPriceForMessageDelivery<Id>(core::marker::PhantomData<Id>);
	pub struct ExponentialPrice<A, B, M, F>(core::marker::PhantomData<(A, B, M, F)>);
}
#[macro_export]
macro_rules! prod_or_fast {
	($prod:expr, $test:expr) => {
		$prod
	};
	($prod:expr, $test:expr, $env:expr) => {
		$prod
	};
}
frame_support::parameter_types! {
	pub const BlockHashCount: u32 = 4096;
}
pub struct SlowAdjustingFeeUpdate<T>(core::marker::PhantomData<T>);
