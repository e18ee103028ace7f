//! Gas tanks: memberships may come with weight that was paid for.
use frame_support::traits::tokens::nonfungibles_v2::{Inspect, InspectEnumerable, Mutate};
use frame_support::weights::Weight;
pub trait GasBurner {
	type AccountId;
	/// What would be left, if there is enough.
	fn check_available_gas(who: &Self::AccountId, estimated: &Weight) -> Option<Weight>;
	fn burn_gas(who: &Self::AccountId, used: &Weight);
}
/// Where the weight left is noted with a membership.
pub const TANK: &[u8] = b"membership_gas";
pub struct NonFungibleGasBurner<T, F, I>(core::marker::PhantomData<(T, F, I)>);
impl<T: frame_system::Config, F, I> GasBurner for NonFungibleGasBurner<T, F, I>
where
	F: Inspect<T::AccountId> + InspectEnumerable<T::AccountId> + Mutate<T::AccountId, I>,
	F::OwnedIterator: Iterator<Item = (F::CollectionId, F::ItemId)>,
{
	type AccountId = T::AccountId;
	fn check_available_gas(who: &T::AccountId, estimated: &Weight) -> Option<Weight> {
		F::owned(who).find_map(|(c, i)| F::typed_system_attribute::<_, Weight>(&c, Some(&i), &TANK).filter(|t| t.all_gte(*estimated)).map(|t| t.saturating_sub(*estimated)))
	}
	fn burn_gas(who: &T::AccountId, used: &Weight) {
		for (c, i) in F::owned(who) {
			if let Some(t) = F::typed_system_attribute::<_, Weight>(&c, Some(&i), &TANK).filter(|t| t.all_gte(*used)) {
				let _ = F::set_typed_attribute(&c, &i, &TANK, &t.saturating_sub(*used));
				return;
			}
		}
	}
}
