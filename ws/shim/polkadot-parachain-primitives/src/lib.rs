pub mod primitives {
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	pub use cumulus_primitives_core::ParaId as Id;
	/// The account of a sibling chain.
	#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Sibling(pub Id);
	impl From<Id> for Sibling {
		fn from(i: Id) -> Self {
			Sibling(i)
		}
	}
	impl From<Sibling> for Id {
		fn from(i: Sibling) -> Self {
			i.0
		}
	}
	impl From<u32> for Sibling {
		fn from(i: u32) -> Self {
			Sibling(i.into())
		}
	}
	impl From<Sibling> for u32 {
		fn from(i: Sibling) -> Self {
			i.0.into()
		}
	}
	impl shim_base::traits::TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}
