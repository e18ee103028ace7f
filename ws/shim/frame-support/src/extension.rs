//! Signed transactions: what is signed, when one is accepted, who pays for it.
use crate::dispatch::{DispatchInfo, PostDispatchInfo};
use parity_scale_codec::Encode;
pub use shim_base::runtime::generic::Era;

/// What a sender writes into a transaction.
#[derive(Clone, Debug)]
pub struct Wish {
	pub nonce: u32,
	pub era: Era,
	pub tip: u128,
	/// the encoded asset fees are paid in, if not the native currency
	pub asset: Option<Vec<u8>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Refused {
	Stale,
	Future,
	Payment,
	BadSigner,
	BadProof,
	AncientBirthBlock,
	ExhaustsResources,
	Lookup,
	Mandatory,
}
/// A part of the chain's state the sender signs without writing it down.
pub type Implied = Vec<(&'static str, Vec<u8>)>;

pub trait Extension: Sized {
	type AccountId;
	type Call;
	type Pre;
	fn written(w: &Wish) -> Self;
	fn implied(&self) -> Result<Implied, Refused> {
		Ok(vec![])
	}
	fn before(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused>;
	fn after(_pre: Self::Pre, _info: &DispatchInfo, _post: &PostDispatchInfo, _len: usize) {}
}
macro_rules! tuples {
	($first:ident $($n:ident)*) => {
		#[allow(non_snake_case)]
		impl<$first: Extension, $($n: Extension<AccountId = $first::AccountId, Call = $first::Call>),*> Extension for ($first, $($n,)*) {
			type AccountId = $first::AccountId;
			type Call = $first::Call;
			type Pre = ($first::Pre, $($n::Pre,)*);
			fn written(w: &Wish) -> Self {
				($first::written(w), $($n::written(w),)*)
			}
			fn implied(&self) -> Result<Implied, Refused> {
				let ($first, $($n,)*) = self;
				#[allow(unused_mut)]
				let mut all = $first.implied()?;
				$(all.extend($n.implied()?);)*
				Ok(all)
			}
			fn before(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, Refused> {
				let ($first, $($n,)*) = self;
				Ok(($first.before(who, call, info, len)?, $($n.before(who, call, info, len)?,)*))
			}
			fn after(pre: Self::Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize) {
				let ($first, $($n,)*) = pre;
				$first::after($first, info, post, len);
				$($n::after($n, info, post, len);)*
			}
		}
		tuples!($($n)*);
	};
	() => {};
}
tuples!(E1 E2 E3 E4 E5 E6 E7 E8 E9 E10 E11 E12);

/// Calls that cost nothing.
pub trait CheckIfFeeless {
	type Origin;
	fn is_feeless(&self, origin: &Self::Origin) -> bool;
}
/// Signed by whom, over what, believing what about the chain.
pub struct Signed<AccountId> {
	pub by: AccountId,
	pub believing: Implied,
}
/// The transaction as the chain sees it: who sends it if the signature holds.
pub fn proven<A: PartialEq, X: Extension<AccountId = A>>(x: &X, who: &A, s: &Signed<A>) -> Result<(), Refused> {
	let holds = |(k, v): &(&'static str, Vec<u8>)| s.believing.iter().any(|(bk, bv)| bk == k && bv == v);
	if s.by == *who && x.implied()?.iter().all(holds) {
		Ok(())
	} else {
		Err(Refused::BadProof)
	}
}
pub fn implied<V: Encode>(what: &'static str, v: V) -> Result<Implied, Refused> {
	Ok(vec![(what, v.encode())])
}
