//! The parties of the Kreivo runtime: accounts, origins, locations, calls, and chains to start from.
use frame_support::traits::{GetCallMetadata, OriginTrait};
use kreivo_runtime::*;
use parity_scale_codec::{Decode, Encode};
use shim_base::ext;
use sp_runtime::traits::Dispatchable;
use sp_runtime::BuildStorage;
use xcm::latest::prelude::*;
use xcm::latest::Junction::AccountId32;

pub type Acc = AccountId;
pub fn acc(n: u8) -> Acc {
	Acc::from([n; 32])
}
/// Account of a pallet id (eight letters) and a suffix, as pallets derive them.
pub fn derived(kind: &[u8; 4], id: &[u8], rest: &[u8]) -> Acc {
	let mut b = [0u8; 32];
	let all = [&kind[..], id, rest].concat();
	b[..all.len()].copy_from_slice(&all);
	b.into()
}
pub fn community_account(id: u16) -> Acc {
	derived(b"modl", b"kv/cmtys", &id.to_le_bytes())
}
pub fn treasury() -> Acc {
	derived(b"modl", b"py/trsry", &[])
}
pub const IDS: [u16; 9] = [0, 1, 2, 3, 4, 255, 256, 513, 65535];

/// Which community an account is, if it is one.
pub fn community_of(a: &Acc) -> Option<u16> {
	let b: &[u8; 32] = a.as_ref();
	(&b[..12] == b"modlkv/cmtys" && b[14..].iter().all(|x| *x == 0)).then(|| u16::from_le_bytes([b[12], b[13]]))
}

/// Ordinary accounts, communities and all sorts of look-alikes.
pub fn accounts() -> Vec<Acc> {
	let mut v: Vec<Acc> = vec![acc(0), acc(1), acc(2), acc(3), acc(4), acc(0xff)];
	for i in IDS {
		v.push(community_account(i));
	}
	for pallet in [b"py/trsry", b"payments", b"PotStake", b"kreivo_p", b"kv/cmtyS", b"kv/cmtyr", b"\0\0\0\0\0\0\0\0"] {
		for i in IDS {
			v.push(derived(b"modl", pallet, &i.to_le_bytes()));
		}
	}
	for kind in [b"para", b"sibl", b"MODL", b"mod\0"] {
		for i in [0u16, 1, 2, 1000] {
			v.push(derived(kind, b"kv/cmtys", &i.to_le_bytes()));
			v.push(derived(kind, &[], &(i as u32).to_le_bytes()));
		}
	}
	// a community number followed by something else
	for i in [0u16, 1, 2, 65535] {
		for tail in [&[1u8][..], &[0, 0, 1], &[0, 1], &[0; 17]] {
			let mut rest = i.to_le_bytes().to_vec();
			rest.extend_from_slice(tail);
			if rest.len() == 19 {
				rest.push(1);
			}
			v.push(derived(b"modl", b"kv/cmtys", &rest));
		}
	}
	v.push(derived(b"Pare", b"nt", &[]));
	v.sort();
	v.dedup();
	v
}

/// Who stands behind an origin.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Who {
	Root,
	Nobody,
	Signed(Acc),
	CreateMemberships,
	Canceller,
	Killer,
	/// a community, or (nonzero) part of one
	Community(u16, u8),
	Xcm(Location),
	Response(Location),
	Relay,
	Sibling(u32),
}
pub fn subset(n: u8) -> Option<pallet_communities::origin::Subset<Runtime>> {
	use pallet_communities::origin::Subset::*;
	match n {
		0 => None,
		1 => Some(Member(7)),
		2 => Some(Members { count: 3 }),
		3 => Some(Fraction(sp_runtime::Permill::from_percent(25))),
		_ => Some(AtLeastRank(Default::default())),
	}
}
impl Who {
	pub fn caller(&self) -> OriginCaller {
		use frame_system::RawOrigin;
		match self {
			Who::Root => OriginCaller::system(RawOrigin::Root),
			Who::Nobody => OriginCaller::system(RawOrigin::None),
			Who::Signed(a) => OriginCaller::system(RawOrigin::Signed(a.clone())),
			Who::CreateMemberships => custom("CreateMemberships"),
			Who::Canceller => custom("ReferendumCanceller"),
			Who::Killer => custom("ReferendumKiller"),
			Who::Community(c, s) => {
				let mut o = pallet_communities::Origin::<Runtime>::new(*c);
				if let Some(s) = subset(*s) {
					o.with_subset(s);
				}
				o.into()
			}
			Who::Xcm(l) => pallet_xcm::Origin::Xcm(l.clone()).into(),
			Who::Response(l) => pallet_xcm::Origin::Response(l.clone()).into(),
			Who::Relay => cumulus_pallet_xcm::Origin::Relay.into(),
			Who::Sibling(n) => cumulus_pallet_xcm::Origin::SiblingParachain((*n).into()).into(),
		}
	}
	pub fn origin(&self) -> RuntimeOrigin {
		self.caller().into()
	}
	pub fn name(&self) -> String {
		format!("{self:?}")
	}
}
fn custom(name: &str) -> OriginCaller {
	let all: Vec<_> = (0..=255u8).filter_map(|n| governance::Origin::decode(&mut &[n][..]).ok()).collect();
	// by name, or else by the place it has always had
	let at = ["CreateMemberships", "ReferendumCanceller", "ReferendumKiller"].iter().position(|n| *n == name).expect("known");
	all.iter().find(|o| format!("{o:?}") == name).unwrap_or(&all[at]).clone().into()
}
/// How many governance origins there are.
pub fn customs() -> usize {
	(0..=255u8).filter(|n| governance::Origin::decode(&mut &[*n][..]).is_ok()).count()
}
pub fn everybody() -> Vec<Who> {
	let mut v = vec![Who::Root, Who::Nobody, Who::CreateMemberships, Who::Canceller, Who::Killer, Who::Relay];
	v.extend(accounts().into_iter().map(Who::Signed));
	for c in IDS {
		for s in 0..5 {
			v.push(Who::Community(c, s));
		}
	}
	v.extend([0, 1, 1000, 2281, u32::MAX].map(Who::Sibling));
	for l in locations(1) {
		v.push(Who::Xcm(l.clone()));
		if l.parents < 2 {
			v.push(Who::Response(l));
		}
	}
	v
}

pub const KUSAMA: Option<NetworkId> = Some(NetworkId::Kusama);
pub const POLKADOT: Option<NetworkId> = Some(NetworkId::Polkadot);
/// Junctions that come close to what the configuration looks for.
pub fn junctions() -> Vec<Junction> {
	let c1: [u8; 32] = community_account(1).into();
	let mut v = vec![];
	for p in [0, 1, 999, 1000, 1001, 2000, 2281, u32::MAX] {
		v.push(Parachain(p));
	}
	for network in [None, KUSAMA, POLKADOT, Some(NetworkId::Westend)] {
		for id in [[1u8; 32], [0; 32], c1] {
			v.push(AccountId32 { network, id });
		}
	}
	for i in [0, 1, 2, 255, 65535, 65536, 65537, 131071, u32::MAX] {
		v.push(Plurality { id: BodyId::Index(i), part: BodyPart::Voice });
	}
	for part in [BodyPart::Members { count: 1 }, BodyPart::Fraction { nom: 1, denom: 2 }, BodyPart::AtLeastProportion { nom: 2, denom: 3 }, BodyPart::MoreThanProportion { nom: 1, denom: 2 }] {
		v.push(Plurality { id: BodyId::Index(1), part });
		v.push(Plurality { id: BodyId::Executive, part });
		v.push(Plurality { id: BodyId::Defense, part });
	}
	for id in [
		BodyId::Unit,
		BodyId::Moniker(*b"test"),
		BodyId::Executive,
		BodyId::Technical,
		BodyId::Legislative,
		BodyId::Judicial,
		BodyId::Defense,
		BodyId::Administration,
		BodyId::Treasury,
	] {
		v.push(Plurality { id, part: BodyPart::Voice });
	}
	v.extend([PalletInstance(0), PalletInstance(13), PalletInstance(50), PalletInstance(255)]);
	v.extend([GeneralIndex(0), GeneralIndex(1), GeneralIndex(1984), GeneralIndex(u32::MAX as u128), GeneralIndex(u32::MAX as u128 + 1)]);
	v.extend([GlobalConsensus(NetworkId::Polkadot), GlobalConsensus(NetworkId::Kusama), GlobalConsensus(NetworkId::Ethereum { chain_id: 1 }), GlobalConsensus(NetworkId::Westend)]);
	v.push(AccountIndex64 { network: None, index: 1 });
	v.push(AccountKey20 { network: None, key: [1; 20] });
	v.push(GeneralKey { length: 2, data: [0; 32] });
	v.push(OnlyChild);
	v
}
/// All locations with up to three parents and up to `n` junctions of the alphabet.
pub fn locations(n: usize) -> Vec<Location> {
	locations_over(&junctions(), 0..=3, n)
}
pub fn locations_over(js: &[Junction], parents: core::ops::RangeInclusive<u8>, n: usize) -> Vec<Location> {
	let mut v = vec![];
	for p in parents {
		let mut layer = vec![Location::new(p, Junctions::Here)];
		for len in 0..=n {
			v.extend(layer.iter().cloned());
			if len < n {
				layer = layer.iter().flat_map(|l| js.iter().map(move |j| l.clone().pushed_with_interior(*j).expect("short"))).collect();
			}
		}
	}
	v
}

/// One representative of every call of the runtime: the one whose arguments are all zeros.
pub fn calls() -> Vec<(String, String, RuntimeCall)> {
	let mut v = vec![];
	let mut missing = vec![];
	for pallet in 0..=255u8 {
		let mut found = None;
		for call in 0..=255u8 {
			let mut bytes = vec![0u8; 4096];
			bytes[0] = pallet;
			bytes[1] = call;
			// a call of all zeros may not exist for some arguments; then try small other values
			let c = [0u8, 1, 2, 4].iter().find_map(|fill| {
				let mut b = bytes.clone();
				b[2..].fill(*fill);
				RuntimeCall::decode(&mut &b[..]).ok()
			});
			if let Some(c) = c {
				let m = c.get_call_metadata();
				found = Some(m.pallet_name);
				v.push((m.pallet_name.to_string(), m.function_name.to_string(), c));
			}
		}
		if let Some(p) = found {
			let have: Vec<_> = v.iter().filter(|x| x.0 == p).map(|x| x.1.clone()).collect();
			for f in RuntimeCall::get_call_names(p) {
				if !have.iter().any(|h| h == f) {
					missing.push(format!("{p}::{f}"));
				}
			}
		}
	}
	assert!(missing.is_empty(), "no representative of {missing:?}");
	v
}

pub const ADMIN: [u8; 4] = [0, 0x11, 0x12, 0x13];
pub const UNIT: u128 = 1_000_000_000_000;
pub fn dispatch(c: impl Into<RuntimeCall>, w: &Who) -> Result<(), sp_runtime::DispatchError> {
	c.into().dispatch(w.origin()).map(|_| ()).map_err(|e| e.error)
}
/// A chain at block 1 with funded accounts and some assets with different minimum balances.
pub fn empty_chain(native: &[(Acc, u128)], assets: &[(FungibleAssetLocation, u128)], held: &[(FungibleAssetLocation, Acc, u128)]) -> ext::Map {
	let t = RuntimeGenesisConfig {
		balances: BalancesConfig { balances: native.to_vec() },
		assets: AssetsConfig {
			assets: assets.iter().map(|(a, min)| (*a, acc(0xaa), true, *min)).collect(),
			metadata: vec![],
			accounts: held.to_vec(),
			next_asset_id: None,
		},
		..Default::default()
	}
	.build_storage()
	.unwrap();
	sp_io::TestExternalities::new(t).execute_with(|| {
		System::set_block_number(1);
		ext::snapshot()
	})
}
/// Communities 1 and 2 are active, 3 is blocked, all registered by root; each has an admin account.
pub fn chain_with_communities() -> ext::Map {
	let mut native = vec![(treasury(), 1000 * UNIT), (acc(1), 1000 * UNIT), (acc(2), 1000 * UNIT)];
	for c in 1..=3 {
		native.push((acc(ADMIN[c]), 1000 * UNIT));
		native.push((community_account(c as u16), 1000 * UNIT));
	}
	let map = empty_chain(&native, &[(FungibleAssetLocation::Here(1), 1)], &[]);
	ext::restore(&map);
	collection(0, treasury());
	for c in 1..=3u16 {
		register(&Who::Root, c, &acc(ADMIN[c as usize])).expect("registers");
	}
	Communities::force_state(&3, pallet_communities::types::CommunityState::Blocked);
	System::reset_events();
	ext::snapshot()
}
pub fn collection(c: u16, owner: Acc) {
	CommunityMemberships::do_create_collection(c, owner.clone(), owner.clone(), Default::default(), 0, pallet_nfts::Event::ForceCreated { collection: c, owner }).expect("collection")
}
pub fn register(by: &Who, id: u16, admin: &Acc) -> Result<(), sp_runtime::DispatchError> {
	dispatch(
		pallet_communities_manager::Call::<Runtime>::new_call_variant_register(id, frame_support::BoundedVec::try_from(format!("C{id}").into_bytes()).expect("short"), sp_runtime::MultiAddress::Id(admin.clone()), None, None),
		by,
	)
}
/// Makes an account a member of a community.
pub fn mint_membership(c: u16, m: u32, owner: &Acc) {
	use frame_support::traits::nonfungibles_v2::Mutate;
	<CommunityMemberships as Mutate<Acc, pallet_nfts::ItemConfig>>::mint_into(&c, &m, owner, &Default::default(), true).expect("membership")
}
/// A membership the community has bought is handed to somebody.
pub fn join(c: u16, m: u32, who: &Acc) {
	mint_membership(0, m, &community_account(c));
	dispatch(pallet_communities::Call::<Runtime>::new_call_variant_add_member(sp_runtime::MultiAddress::Id(who.clone())), &Who::Community(c, 0)).expect("joins")
}
pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn enc<T: Encode>(t: &T) -> String {
	hex(&t.encode())
}
pub fn signer(o: &RuntimeOrigin) -> Option<Acc> {
	match o.caller() {
		OriginCaller::system(frame_system::RawOrigin::Signed(a)) => Some(a.clone()),
		_ => None,
	}
}
/// Moves on to the given block, stopping at the blocks for which something is scheduled.
pub fn run_to(n: u32) {
	use frame_support::traits::Hooks;
	while System::block_number() < n {
		let now = System::block_number();
		let next = pallet_scheduler::Agenda::<Runtime>::iter_keys().filter(|b| *b > now && *b <= n).min().unwrap_or(n);
		System::set_block_number(next);
		<kreivo_runtime::Scheduler as Hooks<u32>>::on_initialize(next);
	}
}
/// The large bounds are cheap enough to be used always.
pub const DEEP: bool = true;
