//! A runtime around the communities pallet. Polls are a plain list kept in the chain state, opened and
//! finished by the checker.
use frame_support::{derive_impl, parameter_types, traits::*, PalletId};
use frame_system::{EnsureRoot, EnsureRootWithSuccess, EnsureSigned};
use pallet_communities::origin::{EnsureCommunity, EnsureSignedPays};
use pallet_communities::types::Tally;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use shim_base::ext;
use sp_runtime::{traits::IdentityLookup, AccountId32, BuildStorage, DispatchError};

pub type Block = frame_system::mocking::MockBlock<Rt>;
pub type AccountId = AccountId32;

#[frame_support::runtime]
mod runtime {
	#[runtime::runtime]
	#[runtime::derive(RuntimeCall, RuntimeEvent, RuntimeError, RuntimeOrigin, RuntimeTask, RuntimeHoldReason, RuntimeFreezeReason)]
	pub struct Rt;
	#[runtime::pallet_index(0)]
	pub type System = frame_system;
	#[runtime::pallet_index(10)]
	pub type Balances = pallet_balances;
	#[runtime::pallet_index(11)]
	pub type Assets = pallet_assets;
	#[runtime::pallet_index(12)]
	pub type AssetsFreezer = pallet_assets_freezer;
	#[runtime::pallet_index(31)]
	pub type Communities = pallet_communities;
	#[runtime::pallet_index(33)]
	pub type Nfts = pallet_nfts;
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Cid(pub u32);
impl From<u32> for Cid {
	fn from(x: u32) -> Cid {
		Cid(x)
	}
}
impl From<u64> for Cid {
	fn from(x: u64) -> Cid {
		Cid(x as u32)
	}
}
impl From<Cid> for u32 {
	fn from(x: Cid) -> u32 {
		x.0
	}
}
impl Incrementable for Cid {
	fn increment(&self) -> Option<Cid> {
		Some(Cid(self.0.saturating_add(1)))
	}
	fn initial_value() -> Option<Cid> {
		Some(Cid(0))
	}
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type Block = Block;
	type AccountId = AccountId;
	type Lookup = IdentityLookup<AccountId>;
	type AccountData = pallet_balances::AccountData<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type FreezeIdentifier = RuntimeFreezeReason;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type MaxFreezes = VariantCountOf<RuntimeFreezeReason>;
}
#[derive_impl(pallet_assets::config_preludes::TestDefaultConfig as pallet_assets::DefaultConfig)]
impl pallet_assets::Config for Rt {
	type Balance = u64;
	type Currency = Balances;
	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<AccountId>>;
	type ForceOrigin = EnsureRoot<AccountId>;
	type Freezer = AssetsFreezer;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_assets_freezer::Config for Rt {
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeEvent = RuntimeEvent;
}
parameter_types! {
	pub Treasury: AccountId = acc(TREASURY);
	pub const CommunitiesPalletId: PalletId = PalletId(*b"mc/comms");
	pub const NoPay: Option<(u64, AccountId, AccountId)> = None;
}
impl pallet_nfts::Config for Rt {
	type ApprovalsLimit = ();
	type AttributeDepositBase = ();
	type CollectionDeposit = ();
	type CollectionId = Cid;
	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<AccountId>>;
	type Currency = Balances;
	type DepositPerByte = ();
	type Features = ();
	type ForceOrigin = EnsureRoot<AccountId>;
	type ItemAttributesApprovalsLimit = ();
	type ItemDeposit = ();
	type ItemId = u32;
	type KeyLimit = ConstU32<64>;
	type Locker = ();
	type MaxAttributesPerCall = ();
	type MaxDeadlineDuration = ();
	type MaxTips = ();
	type MetadataDepositBase = ();
	type OffchainPublic = ();
	type OffchainSignature = ();
	type RuntimeEvent = RuntimeEvent;
	type StringLimit = ();
	type ValueLimit = ConstU32<64>;
	type WeightInfo = ();
}
pub const PRICE: u64 = 10;
impl pallet_communities::Config for Rt {
	type PalletId = CommunitiesPalletId;
	type CommunityId = Cid;
	type MembershipId = u32;
	type Assets = Assets;
	type AssetsFreezer = AssetsFreezer;
	type Balances = Balances;
	type ItemConfig = pallet_nfts::ItemConfig;
	type MemberMgmt = Nfts;
	type Polls = Polls;
	type CreateOrigin = EitherOf<EnsureRootWithSuccess<AccountId, NoPay>, EnsureSignedPays<Rt, ConstU64<PRICE>, Treasury>>;
	type AdminOrigin = EnsureCommunity<Self>;
	type MemberMgmtOrigin = EnsureCommunity<Self>;
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type WeightInfo = ();
}

/// 0 ongoing, 1 approved, 2 rejected, 3 gone without outcome
#[derive(Clone, Encode, Decode)]
pub struct Poll {
	pub status: u8,
	pub class: Cid,
	pub tally: Tally<Rt>,
}
pub struct Polls;
impl Polls {
	fn key(i: u32) -> Vec<u8> {
		(b"\xffpoll", i.to_be_bytes()).encode()
	}
	pub fn get(i: u32) -> Option<Poll> {
		ext::get(&Self::key(i)).map(|b| Poll::decode(&mut &b[..]).expect("poll"))
	}
	pub fn put(i: u32, p: &Poll) {
		ext::put(&Self::key(i), p.encode())
	}
	pub fn open(i: u32, class: u32) {
		Self::put(i, &Poll { status: 0, class: Cid(class), tally: VoteTally::new(Cid(class)) })
	}
	pub fn finish(i: u32, status: u8) {
		let mut p = Self::get(i).expect("poll");
		p.status = status;
		Self::put(i, &p)
	}
}
impl Polling<Tally<Rt>> for Polls {
	type Index = u32;
	type Votes = u32;
	type Class = Cid;
	type Moment = u64;
	fn classes() -> Vec<Cid> {
		vec![Cid(1), Cid(2)]
	}
	fn as_ongoing(i: u32) -> Option<(Tally<Rt>, Cid)> {
		Self::get(i).filter(|p| p.status == 0).map(|p| (p.tally, p.class))
	}
	fn access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut Tally<Rt>, u64, Cid>) -> R) -> R {
		match Self::get(i) {
			Some(mut p) if p.status == 0 => {
				let r = f(PollStatus::Ongoing(&mut p.tally, p.class));
				Self::put(i, &p);
				r
			}
			Some(p) if p.status < 3 => f(PollStatus::Completed(1, p.status == 1)),
			_ => f(PollStatus::None),
		}
	}
	fn try_access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut Tally<Rt>, u64, Cid>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
		match Self::get(i) {
			Some(mut p) if p.status == 0 => {
				let r = f(PollStatus::Ongoing(&mut p.tally, p.class))?;
				Self::put(i, &p);
				Ok(r)
			}
			Some(p) if p.status < 3 => f(PollStatus::Completed(1, p.status == 1)),
			_ => f(PollStatus::None),
		}
	}
}

pub const TREASURY: u8 = 0xee;
pub fn acc(n: u8) -> AccountId {
	AccountId::new([n; 32])
}
/// Collection of the memberships not assigned to anybody.
pub const HOME: Cid = Cid(0);

/// A chain at block 1 with the given native balances, balances of the assets, and memberships
/// (id, community) owned by the communities' accounts.
pub fn genesis(native: &[(AccountId, u64)], assets: &[(u32, AccountId, u64)], memberships: &[(u32, u32)]) -> ext::Map {
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Rt> { balances: native.to_vec() }.assimilate_storage(&mut t).unwrap();
	pallet_assets::GenesisConfig::<Rt> {
		assets: [7u32, 8].iter().map(|a| (*a, acc(TREASURY), true, 1)).collect(),
		metadata: vec![],
		accounts: assets.to_vec(),
		next_asset_id: None,
	}
	.assimilate_storage(&mut t)
	.unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| {
		System::set_block_number(1);
		let make = |c: Cid, owner: AccountId| {
			Nfts::do_create_collection(c, owner.clone(), owner.clone(), Default::default(), 0, pallet_nfts::Event::ForceCreated { collection: c, owner })
				.expect("collection")
		};
		make(HOME, acc(TREASURY));
		for c in [1u32, 2] {
			make(Cid(c), Communities::community_account(&Cid(c)));
		}
		for (m, c) in memberships {
			<Nfts as nonfungibles_v2::Mutate<AccountId, pallet_nfts::ItemConfig>>::mint_into(
				&HOME,
				m,
				&Communities::community_account(&Cid(*c)),
				&Default::default(),
				true,
			)
			.expect("membership");
		}
		System::reset_events();
		ext::snapshot()
	})
}
