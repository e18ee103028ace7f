pub use xcm::latest::{Asset, AssetId, Assets, Location};
pub use xcm::latest::prelude::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct ParaId(pub u32);
impl serde::Serialize for ParaId {
	fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
		z.serialize_u32(self.0)
	}
}
impl From<u32> for ParaId {
	fn from(v: u32) -> Self {
		ParaId(v)
	}
}
impl From<ParaId> for u32 {
	fn from(v: ParaId) -> Self {
		v.0
	}
}
impl shim_base::traits::TypeId for ParaId {
	const TYPE_ID: [u8; 4] = *b"para";
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum AggregateMessageOrigin {
	Here,
	Parent,
	Sibling(ParaId),
}
impl From<AggregateMessageOrigin> for xcm::latest::Location {
	fn from(o: AggregateMessageOrigin) -> Self {
		use xcm::latest::{Junction::Parachain, Location};
		match o {
			AggregateMessageOrigin::Here => Location::here(),
			AggregateMessageOrigin::Parent => Location::parent(),
			AggregateMessageOrigin::Sibling(id) => Location::new(1, [Parachain(id.into())]),
		}
	}
}
/// Where messages of siblings arrive.
pub trait XcmpMessageHandler {
	fn handle_xcmp_message(sender: ParaId, message: Vec<u8>);
}
impl XcmpMessageHandler for () {
	fn handle_xcmp_message(_: ParaId, _: Vec<u8>) {}
}
pub mod relay_chain {
	pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
	pub type BlockNumber = u32;
}
