//! Cross-consensus types (version 4), following the layout and semantics of the original.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::sync::Arc;

pub mod latest {
	pub use super::v4::*;
}
pub mod prelude {
	pub use super::latest::prelude::*;
	pub use super::{VersionedAsset, VersionedAssetId, VersionedAssets, VersionedLocation, VersionedXcm};
}
pub mod opaque {
	pub mod latest {
		pub use crate::v4::*;
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum VersionedLocation {
	#[codec(index = 4)]
	V4(v4::Location),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum VersionedAssetId {
	#[codec(index = 4)]
	V4(v4::AssetId),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum VersionedAsset {
	#[codec(index = 4)]
	V4(v4::Asset),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum VersionedAssets {
	#[codec(index = 4)]
	V4(v4::Assets),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum VersionedXcm<Call: 'static> {
	#[codec(index = 4)]
	V4(v4::Xcm<Call>),
}
impl From<v4::Location> for VersionedLocation {
	fn from(l: v4::Location) -> Self {
		VersionedLocation::V4(l)
	}
}
impl<T: Into<v4::Assets>> From<T> for VersionedAssets {
	fn from(l: T) -> Self {
		VersionedAssets::V4(l.into())
	}
}
pub type Version = u32;
pub mod v2 {
	pub const VERSION: u32 = 2;
	pub mod prelude {
		pub use super::VERSION as XCM_VERSION;
	}
}
pub mod v3 {
	pub const VERSION: u32 = 3;
	pub mod prelude {
		pub use super::VERSION as XCM_VERSION;
	}
}
pub mod v4 {
	use super::*;
	pub use shim_base::runtime::DispatchError;
	pub use frame_support::weights::Weight;
	pub const VERSION: u32 = 4;
	pub type XcmHash = [u8; 32];
	pub type QueryId = u64;
	pub type InteriorLocation = Junctions;

	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		ByGenesis([u8; 32]),
		ByFork { block_number: u64, block_hash: [u8; 32] },
		Polkadot,
		Kusama,
		Westend,
		Rococo,
		Wococo,
		Ethereum {
			#[codec(compact)]
			chain_id: u64,
		},
		BitcoinCore,
		BitcoinCash,
		PolkadotBulletin,
	}
	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum BodyId {
		Unit,
		Moniker([u8; 4]),
		Index(#[codec(compact)] u32),
		Executive,
		Technical,
		Legislative,
		Judicial,
		Defense,
		Administration,
		Treasury,
	}
	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum BodyPart {
		Voice,
		Members {
			#[codec(compact)]
			count: u32,
		},
		Fraction {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		AtLeastProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		MoreThanProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
	}
	impl BodyPart {
		/// Whether the part means a strict majority.
		pub fn is_majority(&self) -> bool {
			match self {
				BodyPart::Fraction { nom, denom } => *nom * 2 > *denom,
				BodyPart::AtLeastProportion { nom, denom } => *nom * 2 > *denom,
				BodyPart::MoreThanProportion { nom, denom } => *nom * 2 >= *denom,
				_ => false,
			}
		}
	}
	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		AccountIndex64 {
			network: Option<NetworkId>,
			#[codec(compact)]
			index: u64,
		},
		AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GeneralKey { length: u8, data: [u8; 32] },
		OnlyChild,
		Plurality { id: BodyId, part: BodyPart },
		GlobalConsensus(NetworkId),
	}
	impl Junction {
		pub fn into_location(self) -> Location {
			Location::new(0, [self])
		}
	}
	impl From<NetworkId> for Junction {
		fn from(n: NetworkId) -> Self {
			Junction::GlobalConsensus(n)
		}
	}
	impl From<[u8; 32]> for Junction {
		fn from(id: [u8; 32]) -> Self {
			Junction::AccountId32 { network: None, id }
		}
	}
	impl From<u128> for Junction {
		fn from(n: u128) -> Self {
			Junction::GeneralIndex(n)
		}
	}

	#[derive(Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		#[default]
		Here,
		X1(Arc<[Junction; 1]>),
		X2(Arc<[Junction; 2]>),
		X3(Arc<[Junction; 3]>),
		X4(Arc<[Junction; 4]>),
		X5(Arc<[Junction; 5]>),
		X6(Arc<[Junction; 6]>),
		X7(Arc<[Junction; 7]>),
		X8(Arc<[Junction; 8]>),
	}
	macro_rules! arrays {
		($($v:ident $n:literal)*) => {
			$(impl From<[Junction; $n]> for Junctions {
				fn from(j: [Junction; $n]) -> Self { Junctions::$v(Arc::new(j)) }
			})*
			impl Junctions {
				pub fn as_slice(&self) -> &[Junction] {
					match self { Junctions::Here => &[], $(Junctions::$v(a) => &a[..],)* }
				}
				fn from_slice(s: &[Junction]) -> Option<Junctions> {
					match s.len() {
						0 => Some(Junctions::Here),
						$($n => Some(Junctions::$v(Arc::new(s.try_into().ok()?))),)*
						_ => None,
					}
				}
			}
		};
	}
	arrays!(X1 1 X2 2 X3 3 X4 4 X5 5 X6 6 X7 7 X8 8);
	impl From<[Junction; 0]> for Junctions {
		fn from(_: [Junction; 0]) -> Self {
			Junctions::Here
		}
	}
	impl From<()> for Junctions {
		fn from(_: ()) -> Self {
			Junctions::Here
		}
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			[j].into()
		}
	}
	impl From<NetworkId> for Junctions {
		fn from(n: NetworkId) -> Self {
			[Junction::GlobalConsensus(n)].into()
		}
	}
	impl Junctions {
		pub fn here() -> Self {
			Junctions::Here
		}
		pub fn len(&self) -> usize {
			self.as_slice().len()
		}
		pub fn is_here(&self) -> bool {
			self.len() == 0
		}
		pub fn iter(&self) -> std::slice::Iter<'_, Junction> {
			self.as_slice().iter()
		}
		pub fn first(&self) -> Option<&Junction> {
			self.as_slice().first()
		}
		pub fn last(&self) -> Option<&Junction> {
			self.as_slice().last()
		}
		pub fn at(&self, i: usize) -> Option<&Junction> {
			self.as_slice().get(i)
		}
		pub fn push(&mut self, j: impl Into<Junction>) -> core::result::Result<(), Junction> {
			let j = j.into();
			let mut v = self.as_slice().to_vec();
			v.push(j);
			*self = Junctions::from_slice(&v).ok_or(j)?;
			Ok(())
		}
		pub fn push_front(&mut self, j: impl Into<Junction>) -> core::result::Result<(), Junction> {
			let j = j.into();
			let mut v = vec![j];
			v.extend_from_slice(self.as_slice());
			*self = Junctions::from_slice(&v).ok_or(j)?;
			Ok(())
		}
		pub fn pushed_with(mut self, j: impl Into<Junction>) -> core::result::Result<Self, (Self, Junction)> {
			match self.push(j) {
				Ok(()) => Ok(self),
				Err(j) => Err((self, j)),
			}
		}
		pub fn pushed_front_with(mut self, j: impl Into<Junction>) -> core::result::Result<Self, (Self, Junction)> {
			match self.push_front(j) {
				Ok(()) => Ok(self),
				Err(j) => Err((self, j)),
			}
		}
		pub fn take_first(&mut self) -> Option<Junction> {
			let s = self.as_slice().to_vec();
			let (f, r) = s.split_first()?;
			*self = Junctions::from_slice(r)?;
			Some(*f)
		}
		pub fn take_last(&mut self) -> Option<Junction> {
			let s = self.as_slice().to_vec();
			let (l, r) = s.split_last()?;
			*self = Junctions::from_slice(r)?;
			Some(*l)
		}
		pub fn split_first(mut self) -> (Junctions, Option<Junction>) {
			let f = self.take_first();
			(self, f)
		}
		pub fn split_last(mut self) -> (Junctions, Option<Junction>) {
			let f = self.take_last();
			(self, f)
		}
		pub fn global_consensus(&self) -> core::result::Result<NetworkId, ()> {
			match self.first() {
				Some(Junction::GlobalConsensus(n)) => Ok(*n),
				_ => Err(()),
			}
		}
		pub fn into_location(self) -> Location {
			Location { parents: 0, interior: self }
		}
		pub fn starts_with(&self, prefix: &Junctions) -> bool {
			self.as_slice().starts_with(prefix.as_slice())
		}
		/// The location of this interior as seen by `viewer`, both being absolute.
		pub fn relative_to(mut self, viewer: &Junctions) -> Location {
			let mut i = 0;
			while matches!((self.first(), viewer.at(i)), (Some(x), Some(y)) if x == y) {
				self = self.split_first().0;
				i += 1;
			}
			Location::new((viewer.len() - i) as u8, self)
		}
		pub fn within_global(mut self, relative: Location) -> core::result::Result<Self, ()> {
			for _ in 0..relative.parents {
				self.take_last().ok_or(())?;
			}
			for j in relative.interior.iter() {
				self.push(*j).map_err(|_| ())?;
			}
			Ok(self)
		}
	}
	impl<'a> IntoIterator for &'a Junctions {
		type Item = &'a Junction;
		type IntoIter = std::slice::Iter<'a, Junction>;
		fn into_iter(self) -> Self::IntoIter {
			self.iter()
		}
	}
	impl IntoIterator for Junctions {
		type Item = Junction;
		type IntoIter = std::vec::IntoIter<Junction>;
		fn into_iter(self) -> Self::IntoIter {
			self.as_slice().to_vec().into_iter()
		}
	}

	#[derive(Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Location {
			Location { parents, interior: interior.into() }
		}
		pub const fn here() -> Location {
			Location { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Location {
			Location { parents: 1, interior: Junctions::Here }
		}
		pub const fn ancestor(parents: u8) -> Location {
			Location { parents, interior: Junctions::Here }
		}
		pub fn grandparent() -> Location {
			Self::ancestor(2)
		}
		pub fn is_here(&self) -> bool {
			self.parents == 0 && self.interior.is_here()
		}
		pub fn parent_count(&self) -> u8 {
			self.parents
		}
		pub fn contains_parents_only(&self, n: u8) -> bool {
			self.parents == n && self.interior.is_here()
		}
		pub fn interior(&self) -> &Junctions {
			&self.interior
		}
		pub fn len(&self) -> usize {
			self.parents as usize + self.interior.len()
		}
		pub fn first_interior(&self) -> Option<&Junction> {
			self.interior.first()
		}
		pub fn last(&self) -> Option<&Junction> {
			self.interior.last()
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
		pub fn starts_with(&self, prefix: &Location) -> bool {
			self.parents == prefix.parents && self.interior.starts_with(&prefix.interior)
		}
		pub fn match_and_split(&self, prefix: &Location) -> Option<&Junction> {
			if self.parents != prefix.parents || self.interior.len() != prefix.interior.len() + 1 || !self.interior.starts_with(&prefix.interior) {
				return None;
			}
			self.interior.last()
		}
		pub fn push_interior(&mut self, j: impl Into<Junction>) -> core::result::Result<(), Junction> {
			self.interior.push(j)
		}
		pub fn pushed_with_interior(self, j: impl Into<Junction>) -> core::result::Result<Self, (Self, Junction)> {
			match self.interior.pushed_with(j) {
				Ok(interior) => Ok(Location { interior, parents: self.parents }),
				Err((interior, j)) => Err((Location { interior, parents: self.parents }, j)),
			}
		}
		pub fn take_first_interior(&mut self) -> Option<Junction> {
			self.interior.take_first()
		}
		pub fn take_last(&mut self) -> Option<Junction> {
			self.interior.take_last()
		}
		pub fn split_first_interior(mut self) -> (Location, Option<Junction>) {
			let j = self.take_first_interior();
			(self, j)
		}
		pub fn split_last_interior(mut self) -> (Location, Option<Junction>) {
			let j = self.take_last();
			(self, j)
		}
		pub fn into_versioned(self) -> crate::VersionedLocation {
			crate::VersionedLocation::V4(self)
		}
		/// Location of the enclosing chain of `self`, if it is one.
		pub fn chain_location(&self) -> Location {
			let mut clone = self.clone();
			while let Some(j) = clone.last() {
				if matches!(j, Junction::Parachain(_) | Junction::GlobalConsensus(_)) {
					break;
				}
				clone.take_last();
			}
			clone
		}
	}
	macro_rules! loc_from {
		($($t:ty),*) => { $(impl From<$t> for Location {
			fn from(x: $t) -> Self { Location { parents: 0, interior: x.into() } }
		})* };
	}
	loc_from!(Junction, Junctions, NetworkId, (), [Junction; 1], [Junction; 2], [Junction; 3], [Junction; 4], [u8; 32]);
	impl From<[u8; 32]> for Junctions {
		fn from(id: [u8; 32]) -> Self {
			Junction::from(id).into()
		}
	}
	macro_rules! loc_from_parents {
		($($t:ty),*) => { $(impl From<(u8, $t)> for Location {
			fn from((parents, x): (u8, $t)) -> Self { Location { parents, interior: x.into() } }
		})* };
	}
	loc_from_parents!(Junction, Junctions, [Junction; 1], [Junction; 2], [Junction; 3], [Junction; 4]);
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location::parent()
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Ancestor(pub u8);
	impl From<Ancestor> for Location {
		fn from(p: Ancestor) -> Self {
			Location { parents: p.0, interior: Junctions::Here }
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct AncestorThen<T>(pub u8, pub T);
	impl<T: Into<Junctions>> From<AncestorThen<T>> for Location {
		fn from(p: AncestorThen<T>) -> Self {
			Location { parents: p.0, interior: p.1.into() }
		}
	}
	macro_rules! loc_from_steps {
		($(($($j:ident)+))*) => { $(
			impl From<(Parent, $(steps!($j)),+)> for Location {
				fn from((_, $($j),+): (Parent, $(steps!($j)),+)) -> Self { Location::new(1, [$($j),+]) }
			}
			impl From<(Parent, Parent, $(steps!($j)),+)> for Location {
				fn from((_, _, $($j),+): (Parent, Parent, $(steps!($j)),+)) -> Self { Location::new(2, [$($j),+]) }
			}
			impl From<(Ancestor, $(steps!($j)),+)> for Location {
				fn from((a, $($j),+): (Ancestor, $(steps!($j)),+)) -> Self { Location::new(a.0, [$($j),+]) }
			}
		)* };
	}
	macro_rules! steps {
		($j:ident) => { Junction };
	}
	loc_from_steps!((a1) (a1 a2) (a1 a2 a3) (a1 a2 a3 a4));
	impl TryFrom<Location> for Junctions {
		type Error = Location;
		fn try_from(l: Location) -> core::result::Result<Self, Location> {
			if l.parents > 0 {
				Err(l)
			} else {
				Ok(l.interior)
			}
		}
	}

	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum AssetInstance {
		Undefined,
		Index(#[codec(compact)] u128),
		Array4([u8; 4]),
		Array8([u8; 8]),
		Array16([u8; 16]),
		Array32([u8; 32]),
	}
	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(AssetInstance),
	}
	#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum WildFungibility {
		Fungible,
		NonFungible,
	}
	impl From<u128> for Fungibility {
		fn from(v: u128) -> Self {
			Fungibility::Fungible(v)
		}
	}
	impl From<AssetInstance> for Fungibility {
		fn from(v: AssetInstance) -> Self {
			Fungibility::NonFungible(v)
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	impl<T: Into<Location>> From<T> for AssetId {
		fn from(l: T) -> Self {
			AssetId(l.into())
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
		fn from((id, fun): (A, B)) -> Self {
			Asset { id: id.into(), fun: fun.into() }
		}
	}
	impl Asset {
		pub fn is_fungible(&self, maybe: Option<AssetId>) -> bool {
			matches!(self.fun, Fungibility::Fungible(_)) && maybe.map_or(true, |i| i == self.id)
		}
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo)]
	pub struct Assets(pub Vec<Asset>);
	/// Fungible amounts of the same asset are one, and the assets in order.
	impl From<Vec<Asset>> for Assets {
		fn from(v: Vec<Asset>) -> Self {
			let mut r = Assets(vec![]);
			for a in v {
				r.push(a);
			}
			r.0.sort();
			r
		}
	}
	impl<T: Into<Asset>> From<T> for Assets {
		fn from(v: T) -> Self {
			Assets(vec![v.into()])
		}
	}
	impl Assets {
		pub fn new() -> Self {
			Assets(vec![])
		}
		pub fn inner(&self) -> &Vec<Asset> {
			&self.0
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn push(&mut self, a: Asset) {
			for b in self.0.iter_mut() {
				match (&a, b) {
					(Asset { fun: Fungibility::Fungible(n), id }, Asset { fun: Fungibility::Fungible(m), id: other }) if id == other => {
						*m = m.saturating_add(*n);
						return;
					}
					(Asset { fun: Fungibility::NonFungible(x), id }, Asset { fun: Fungibility::NonFungible(y), id: other }) if id == other && x == y => return,
					_ => {}
				}
			}
			self.0.push(a)
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum WildAsset {
		All,
		AllOf { id: AssetId, fun: WildFungibility },
		AllCounted(#[codec(compact)] u32),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}
	impl From<WildAsset> for AssetFilter {
		fn from(w: WildAsset) -> Self {
			AssetFilter::Wild(w)
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum Error {
		Overflow,
		Unimplemented,
		UntrustedReserveLocation,
		UntrustedTeleportLocation,
		LocationFull,
		LocationNotInvertible,
		BadOrigin,
		InvalidLocation,
		AssetNotFound,
		FailedToTransactAsset(#[codec(skip)] &'static str),
		NotWithdrawable,
		LocationCannotHold,
		ExceedsMaxMessageSize,
		NoPermission,
		Barrier,
		NotHoldingFees,
		TooExpensive,
	}
	pub type Result = core::result::Result<(), Error>;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum SendError {
		NotApplicable,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		DestinationUnsupported,
		ExceedsMaxMessageSize,
		MissingArgument,
		Fees,
	}
	pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct XcmContext {
		pub origin: Option<Location>,
		pub message_id: XcmHash,
		pub topic: Option<[u8; 32]>,
	}
	impl XcmContext {
		pub fn with_message_id(message_id: XcmHash) -> XcmContext {
			XcmContext { origin: None, message_id, topic: None }
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum Instruction<Call: 'static> {
		WithdrawAsset(Assets),
		ReserveAssetDeposited(Assets),
		ReceiveTeleportedAsset(Assets),
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: Vec<u8> },
		ClearOrigin,
		DescendOrigin(InteriorLocation),
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		RefundSurplus,
		Trap(#[codec(compact)] u64),
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		SetTopic([u8; 32]),
		ClaimAsset { assets: Assets, ticket: Location },
		UniversalOrigin(Junction),
		AliasOrigin(Location),
		#[codec(skip)]
		Phantom(core::marker::PhantomData<Call>),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct Xcm<Call: 'static>(pub Vec<Instruction<Call>>);
	impl<Call> Xcm<Call> {
		pub fn new() -> Self {
			Xcm(vec![])
		}
	}
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
	}
	impl SendXcm for () {
		type Ticket = ();
		fn validate(_: &mut Option<Location>, _: &mut Option<Xcm<()>>) -> SendResult<()> {
			Err(SendError::NotApplicable)
		}
		fn deliver(_: ()) -> core::result::Result<XcmHash, SendError> {
			Err(SendError::NotApplicable)
		}
	}

	pub mod prelude {
		pub use super::AssetFilter::{self, *};
		pub use super::AssetInstance::{self, *};
		pub use super::Fungibility::{self, *};
		pub use super::Instruction::*;
		pub use super::Junction::{self, *};
		pub use super::Junctions::{self, Here};
		pub use super::NetworkId::{self, *};
		pub use super::WeightLimit::{self, *};
		pub use super::WildAsset::{self, *};
		pub use super::WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible};
		pub use super::{
			Ancestor, AncestorThen, Asset, AssetId, Assets, BodyId, BodyPart, Error as XcmError, Instruction, InteriorLocation, Location, OriginKind,
			Parent, ParentThen, QueryId, Result as XcmResult, SendError, SendResult, SendXcm, Weight, Xcm, XcmContext, XcmHash, VERSION as XCM_VERSION,
		};
	}
}
