//! G01-G02: registering communities and creating memberships on the real pallets.
mod rt;

use fc_traits_tracks::MutateTracks;
use frame_support::traits::{fungible, nonfungibles_v2, EnsureOrigin, OriginTrait, RankedMembers, VoteTally};
use frame_support::BoundedVec;
use mc_core::serde_json::{json, Value};
use mc_core::{bfs, guard, par_for, Run, Succ, Tallier};
use pallet_communities::{origin::EnsureCommunity, DecisionMethod, Vote};
use pallet_communities_manager::{Call, Event};
use pallet_referenda::{Curve, TrackInfo, TracksInfo};
use parity_scale_codec::Encode;
use rt::*;
use shim_base::ext;
use sp_runtime::traits::Dispatchable;
use sp_runtime::Perbill;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

const A: u8 = 1;
const B: u8 = 2;
const V: u8 = 9;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
enum By {
	Root,
	Nobody,
	Signed(u8),
	Com(u32),
}
fn origin(b: By) -> RuntimeOrigin {
	match b {
		By::Root => RuntimeOrigin::root(),
		By::Nobody => RuntimeOrigin::none(),
		By::Signed(a) => RuntimeOrigin::signed(acc(a)),
		By::Com(c) => pallet_communities::Origin::<Rt>::new(Cid(c)).into(),
	}
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode)]
enum M {
	Membership,
	Native,
	Asset,
	Rank,
}
fn method(m: M) -> DecisionMethod<u32, u64> {
	match m {
		M::Membership => DecisionMethod::Membership,
		M::Native => DecisionMethod::NativeToken,
		M::Asset => DecisionMethod::CommunityAsset(7, 2),
		M::Rank => DecisionMethod::Rank,
	}
}
const NAMES: [&[u8]; 6] = [b"Virto", b"", b"0123456789012345678901234", "ñandú 🦀".as_bytes(), b"bad \xff", b"cut \xf0\x9f\xa6"];
fn valid(name: u32) -> bool {
	name < 4
}
type Info = TrackInfo<u64, u64>;
fn custom_track() -> Info {
	let mut name = [0u8; 25];
	name[..3].copy_from_slice(b"own");
	let curve = |f: u32, c: u32| Curve::LinearDecreasing { length: Perbill::from_percent(60), floor: Perbill::from_percent(f), ceil: Perbill::from_percent(c) };
	TrackInfo {
		name,
		max_deciding: 7,
		decision_deposit: 11,
		prepare_period: 12,
		decision_period: 13,
		confirm_period: 14,
		min_enactment_period: 15,
		min_approval: curve(51, 99),
		min_support: curve(2, 33),
	}
}

#[derive(Clone, Copy, Debug, Encode, PartialEq)]
struct Op {
	by: By,
	id: u32,
	name: u32,
	admin: u8,
	method: Option<M>,
	track: bool,
}
#[derive(Clone, Debug, Encode, PartialEq)]
struct Registered {
	name: u32,
	admin: u8,
	method: M,
	track: bool,
}
#[derive(Clone, Debug, Default, Encode)]
struct Model {
	communities: BTreeMap<u32, Registered>,
	/// things already in place for an id: collection, track, collective membership
	taken: BTreeMap<u32, (bool, bool, bool)>,
	balances: BTreeMap<u8, u64>,
}
impl Model {
	fn apply(&self, op: &Op) -> Option<Model> {
		let mut n = self.clone();
		match op.by {
			By::Root => {}
			By::Signed(a) => {
				let b = n.balances.get_mut(&a)?;
				*b = b.checked_sub(PRICE).filter(|x| *x >= 1)?;
				*n.balances.get_mut(&TREASURY)? += PRICE;
			}
			_ => return None,
		}
		let tracks = self.communities.len() as u32 + self.taken.values().filter(|t| t.1).count() as u32;
		let free = self.taken.get(&op.id).map_or(true, |t| !t.0 && !t.1 && !t.2);
		if !valid(op.name) || op.admin == UNKNOWN || !free || tracks >= MAX_TRACKS || self.communities.contains_key(&op.id) {
			return None;
		}
		if self.communities.values().any(|c| c.admin == op.admin) {
			return None;
		}
		n.communities.insert(op.id, Registered { name: op.name, admin: op.admin, method: op.method.unwrap_or(M::Membership), track: op.track });
		Some(n)
	}
}

#[derive(Clone)]
struct St {
	map: ext::Map,
	model: Model,
}

/// Puts obstacles in place: things registering needs to create exist already.
fn start(taken: &[(u32, (bool, bool, bool))]) -> St {
	let balances = [(A, 25), (B, 10), (3, 5), (TREASURY, 1), (V, 100)];
	let native: Vec<_> = balances.iter().map(|(a, n)| (acc(*a), *n)).collect();
	let map = genesis(&native, &[]);
	ext::restore(&map);
	let mut model = Model { balances: balances.into_iter().collect(), ..Default::default() };
	for (id, t) in taken {
		if t.0 {
			collection(Cid(*id), acc(8));
		}
		if t.1 {
			<Tracks as MutateTracks<u64, u64>>::insert(Cid(*id), custom_track(), origin(By::Signed(8)).caller().clone()).expect("track");
		}
		if t.2 {
			<Collective as RankedMembers>::induct(&Communities::community_account(&Cid(*id))).expect("inducted");
		}
		model.taken.insert(*id, *t);
	}
	System::reset_events();
	St { map: ext::snapshot(), model }
}

fn call(op: &Op) -> RuntimeCall {
	Call::new_call_variant_register(Cid(op.id), BoundedVec::try_from(NAMES[op.name as usize].to_vec()).expect("short"), acc(op.admin), op.method.map(method), op.track.then(custom_track))
	.into()
}

/// What a member of rank 2 can vote with in the community, and how much it counts. Goes through the
/// administrator's calls, so it also shows that the memberships collection works.
fn method_in_force(c: u32, admin: u8) -> Result<M, String> {
	let base = ext::snapshot();
	let by = || origin(By::Signed(admin));
	let r = guard(|| {
		mint(500 + c, &Communities::community_account(&Cid(c)));
		let run = |call: pallet_communities::Call<Rt>| RuntimeCall::from(call).dispatch(by()).map_err(|e| format!("{e:?}"));
		run(pallet_communities::Call::new_call_variant_add_member(acc(V)))?;
		for _ in 0..2 {
			run(pallet_communities::Call::new_call_variant_promote(Mid(500 + c)))?;
		}
		Polls::open(c, c);
		Ok::<_, String>(ext::snapshot())
	});
	let ready = match r {
		Ok(Ok(m)) => m,
		Ok(Err(e)) | Err(e) => {
			ext::restore(&base);
			return Err(e);
		}
	};
	let works = |vote: Vote<u32, u64, u64>| {
		ext::restore(&ready);
		let c1: RuntimeCall = pallet_communities::Call::new_call_variant_vote(Mid(500 + c), c, vote).into();
		let ok = guard(|| c1.dispatch(origin(By::Signed(V))).is_ok()).unwrap_or(false);
		ok.then(|| Polls::get(c).map_or(0, |p| p.tally.ayes(Cid(c))))
	};
	let r = (works(Vote::Standard(true)), works(Vote::NativeBalance(true, 5)), works(Vote::AssetBalance(true, 7, 5)), works(Vote::AssetBalance(true, 7, 1)));
	ext::restore(&base);
	match r {
		(Some(1), None, None, None) => Ok(M::Membership),
		(Some(2), None, None, None) => Ok(M::Rank),
		(None, Some(5), None, None) => Ok(M::Native),
		(None, None, Some(5), None) => Ok(M::Asset),
		other => Err(format!("{other:?}")),
	}
}

/// Compares everything registration is about with the model.
fn differences(m: &Model) -> Vec<String> {
	let mut out = vec![];
	let mut same = |what: &str, want: String, got: String| {
		if want != got {
			out.push(format!("{what}: expected {want}, found {got}"));
		}
	};
	for id in 0..4u32 {
		let c = m.communities.get(&id);
		let taken = m.taken.get(&id).copied().unwrap_or_default();
		let account = Communities::community_account(&Cid(id));
		same(&format!("community {id} exists"), c.is_some().to_string(), Communities::community_exists(&Cid(id)).to_string());
		let owner = <Nfts as nonfungibles_v2::Inspect<AccountId>>::collection_owner(&Cid(id));
		let want = match (c, taken.0, id) {
			(Some(_), ..) => Some(account.clone()),
			(_, true, _) => Some(acc(8)),
			(_, _, 0) => Some(acc(OWNER)),
			_ => None,
		};
		same(&format!("owner of collection {id}"), format!("{want:?}"), format!("{owner:?}"));
		let rank = <Collective as RankedMembers>::rank_of(&account);
		let want = (c.is_some() || taken.2).then_some(0u16);
		same(&format!("rank of community {id} in the collective"), format!("{want:?}"), format!("{rank:?}"));
		let origin_track = <Tracks as TracksInfo<u64, u64>>::track_for(origin(By::Com(id)).caller());
		same(&format!("track of the origin of {id}"), format!("{:?}", c.map(|_| Cid(id)).ok_or(())), format!("{origin_track:?}"));
		let info: Option<Info> = <Tracks as TracksInfo<u64, u64>>::tracks().find(|t| t.id == Cid(id)).map(|t| t.info.clone());
		match (c, info) {
			(Some(c), Some(i)) if c.track => same(&format!("track {id}"), format!("{:?}", custom_track()), format!("{i:?}")),
			(Some(c), Some(i)) => {
				let mut name = [0u8; 25];
				name[..NAMES[c.name as usize].len()].copy_from_slice(NAMES[c.name as usize]);
				same(&format!("name of track {id}"), format!("{name:?}"), format!("{:?}", i.name));
				let usable = i.max_deciding > 0 && i.decision_period > 0;
				same(&format!("default track of {id} is usable"), "true".into(), usable.to_string());
			}
			(c, i) => same(&format!("track {id} exists"), (c.is_some() || taken.1).to_string(), i.is_some().to_string()),
		}
		if let Some(c) = c {
			let got = EnsureCommunity::<Rt>::try_origin(origin(By::Signed(c.admin))).ok();
			same(&format!("administrator of {id}"), format!("{:?}", Some(Cid(id))), format!("{got:?}"));
			let got = method_in_force(id, c.admin);
			same(&format!("decision method of {id}"), format!("{:?}", Ok::<M, String>(c.method)), format!("{got:?}"));
		}
	}
	for a in [A, B, 3, 4, TREASURY, V] {
		if !m.communities.values().any(|c| c.admin == a) {
			let got = EnsureCommunity::<Rt>::try_origin(origin(By::Signed(a))).ok();
			same(&format!("account {a} administers"), "None".into(), format!("{got:?}"));
		}
		let want = m.balances.get(&a).copied().unwrap_or(0);
		let got = <Balances as fungible::Inspect<AccountId>>::total_balance(&acc(a));
		same(&format!("balance of {a}"), want.to_string(), got.to_string());
	}
	out
}

fn step(run: &Run, tally: &Tallier, s: &St, op: &Op, trace: &dyn Fn() -> Vec<String>) -> Option<St> {
	ext::restore(&s.map);
	let case = |why: Value| {
		let mut t = trace();
		t.push(format!("{op:?}"));
		json!({"history": t, "in_place": format!("{:?}", s.model.taken), "detail": why})
	};
	let r = guard(|| call(op).dispatch(origin(op.by)).is_ok());
	let want = s.model.apply(op);
	run.transitions(1);
	match (r, want) {
		(Err(p), _) => run.fail("registration panics", case(json!(p))),
		(Ok(false), want) => {
			tally.hit("refused");
			run.check(want.is_none(), "a proper registration is refused", || case(json!(null)));
			run.check(ext::snapshot() == s.map, "a failed registration leaves something behind", || case(json!(null)));
		}
		(Ok(true), None) => run.fail("a registration succeeds that must fail", case(json!(null))),
		(Ok(true), Some(model)) => {
			tally.hit("registered");
			let said: Vec<u32> = System::events()
				.into_iter()
				.filter_map(|e| if let RuntimeEvent::Manager(Event::CommunityRegistered { id }) = e.event { Some(id.0) } else { None })
				.collect();
			run.check(said == vec![op.id], "announced registration is another one", || case(json!(said)));
			System::reset_events();
			let map = ext::snapshot();
			let d = differences(&model);
			ext::restore(&map);
			if run.check(d.is_empty(), "registration is incomplete or affects something else", || case(json!(d))) {
				if tally.get("registered") <= 4 {
					run.sample(json!({"history": trace(), "then": format!("{op:?}")}));
				}
				return Some(St { map, model });
			}
		}
	}
	None
}

fn registrations(run: &Run) {
	let tally = Tallier::default();
	let t = run.thorough();
	// every combination of arguments against every combination of obstacles
	let mut inits = vec![];
	for bits in 0..8 {
		inits.push(start(&[(1, (bits & 1 > 0, bits & 2 > 0, bits & 4 > 0))]));
	}
	// no room for another track
	inits.push(start(&[(2, (false, true, false)), (3, (false, true, false)), (4, (false, true, false))]));
	let bys = [By::Root, By::Nobody, By::Signed(A), By::Signed(B), By::Signed(3), By::Signed(4), By::Com(1), By::Com(2)];
	let mut full = vec![];
	for by in bys {
		for name in 0..NAMES.len() as u32 {
			for admin in [A, B, 4, UNKNOWN] {
				for method in [None, Some(M::Membership), Some(M::Native), Some(M::Asset), Some(M::Rank)] {
					for track in [false, true] {
						for id in [1, 2] {
							full.push(Op { by, id, name, admin, method, track });
						}
					}
				}
			}
		}
	}
	par_for(inits.len() * full.len(), 64, |i| {
		let (s, op) = (&inits[i / full.len()], &full[i % full.len()]);
		run.states(1);
		run.traces(1);
		step(run, &tally, s, op, &|| vec!["init".into()]);
	});
	// sequences
	let mut few = vec![];
	for by in [By::Root, By::Signed(A), By::Signed(B), By::Nobody, By::Com(1)] {
		for id in [1, 2, 3] {
			for admin in [A, B, 4] {
				for (method, track, name) in if t { vec![(None, false, 0), (Some(M::Rank), true, 1), (Some(M::Native), false, 4)] } else { vec![(None, false, 0), (Some(M::Rank), true, 4)] } {
					few.push(Op { by, id, name: if name == 4 && t { 4 } else { name % 4 }, admin, method, track });
				}
			}
		}
	}
	let e = bfs(
		vec![start(&[]), start(&[(2, (true, false, false))]), start(&[(3, (false, false, true))])],
		|s: &St| mc_core::digest(&(s.map.clone(), &s.model).encode()),
		10,
		500_000,
		|s, trace| {
			run.traces(few.len() as u64);
			few.iter().filter_map(|op| step(run, &tally, s, op, trace).map(|n| Succ { label: format!("{op:?}"), state: n })).collect()
		},
	);
	run.states(e.states);
	if !e.fixpoint {
		run.not_exhaustive();
	}
	run.info("explored sequences", json!({"states": e.states, "depth": e.depth, "complete": e.fixpoint}));
	run.info("outcomes", tally.json());
	if !run.failed() && (tally.get("registered") == 0 || tally.get("refused") == 0) {
		eprintln!("nothing was registered: error of the check");
		std::process::exit(3);
	}
}

/// Items of the home collection with owner and price.
fn stock() -> BTreeMap<u32, (AccountId, Option<u64>)> {
	pallet_nfts::Item::<Rt>::iter()
		.filter(|x| x.0 == HOME)
		.map(|(c, m, o)| (m.0, (o, <Nfts as nonfungibles_v2::Trading<AccountId, u64>>::item_price(&c, &m))))
		.collect()
}
#[derive(Clone, Copy, Debug)]
struct Mint {
	by: By,
	amount: u16,
	start: u32,
	price: u64,
}
fn mint_step(run: &Run, tally: &Tallier, map: &ext::Map, op: &Mint, trace: &dyn Fn() -> Vec<String>) -> Option<ext::Map> {
	ext::restore(map);
	let before = stock();
	run.transitions(1);
	let call: RuntimeCall = Call::new_call_variant_create_memberships(op.amount, Mid(op.start), op.price).into();
	let r = guard(|| call.dispatch(origin(op.by)).is_ok());
	let sticky = STICKY.load(Ordering::Relaxed);
	let case = |why: Value| {
		let mut t = trace();
		t.push(format!("{op:?}"));
		json!({"history": t, "last_id_repeats": sticky, "detail": why})
	};
	// ids there are from the start on
	let room = u32::MAX as u64 - op.start as u64 + 1;
	let count = (op.amount as u64).min(room);
	let wanted = op.start as u64..op.start as u64 + count;
	let clash = before.keys().any(|k| wanted.contains(&(*k as u64)));
	let short = count < op.amount as u64;
	let allowed = op.by == By::Root && op.amount <= 1024 && !clash;
	match r {
		Err(p) => run.fail("creating memberships panics", case(json!(p))),
		Ok(false) => {
			tally.hit("refused");
			// running out of ids or creating nothing may be refused
			run.check(!allowed || short || op.amount == 0, "creating memberships is refused", || case(json!(null)));
			run.check(ext::snapshot() == *map, "a failed creation leaves something behind", || case(json!(null)));
		}
		Ok(true) => {
			if !run.check(allowed, "memberships are created that must not be", || case(json!({"clash": clash}))) {
				return None;
			}
			tally.hit(if short { "created up to the last id" } else { "created" });
			let said: Vec<(u32, u32)> = System::events()
				.into_iter()
				.filter_map(|e| if let RuntimeEvent::Manager(Event::MembershipsCreated { starting_at, amount }) = e.event { Some((starting_at.0, amount)) } else { None })
				.collect();
			run.check(said == vec![(op.start, count as u32)], "announced amount differs from what was minted", || {
				case(json!({"expected": [op.start as u64, count], "announced": said}))
			});
			let mut want = before.clone();
			for i in wanted {
				want.insert(i as u32, (acc(OWNER), Some(op.price)));
			}
			let after = stock();
			run.check(after == want, "minted memberships are not the requested ones", || {
				let odd: Vec<String> =
					want.iter().filter(|(k, v)| after.get(k) != Some(v)).chain(after.iter().filter(|(k, v)| want.get(k) != Some(v))).take(4).map(|x| format!("{x:?}")).collect();
				case(json!({"expected": want.len(), "found": after.len(), "differing": odd}))
			});
			System::reset_events();
			return Some(ext::snapshot());
		}
	}
	None
}

fn creations(run: &Run) {
	let tally = Tallier::default();
	let people = [(acc(A), 50), (acc(OWNER), 50)];
	let empty = genesis(&people, &[]);
	let some = genesis(&people, &[(3, acc(OWNER)), (1000, acc(A)), (u32::MAX - 5, acc(A))]);
	let end = genesis(&people, &[(u32::MAX, acc(A))]);
	const MAX: u32 = u32::MAX;
	for sticky in [true, false] {
		STICKY.store(sticky, Ordering::Relaxed);
		let mut ops = vec![];
		for by in [By::Root, By::Nobody, By::Signed(A), By::Signed(OWNER), By::Com(1)] {
			for amount in [0, 1, 2, 3, 7, 1023, 1024, 1025, 2048, 32_768, u16::MAX] {
				if by != By::Root && amount > 3 && amount != 1025 {
					continue;
				}
				for start in [0, 1, 2, 3, 4, 999, 1000, 1001, 65_535, MAX - 1024, MAX - 1023, MAX - 7, MAX - 6, MAX - 5, MAX - 4, MAX - 2, MAX - 1, MAX] {
					for price in [0, 1, 12_345, u64::MAX] {
						ops.push(Mint { by, amount, start, price });
					}
				}
			}
		}
		// every permitted amount
		for amount in (0..=1030).step_by(if run.thorough() { 1 } else { 7 }) {
			ops.push(Mint { by: By::Root, amount, start: 10_000, price: 9 });
			ops.push(Mint { by: By::Root, amount, start: MAX - 500, price: 9 });
		}
		par_for(ops.len(), 4, |i| {
			for map in [&empty, &some, &end] {
				run.states(1);
				run.traces(1);
				mint_step(run, &tally, map, &ops[i], &|| vec!["init".into()]);
			}
		});
		// sequences
		let mut few = vec![];
		for amount in [1u16, 2, 3] {
			for start in [0, 1, 2, 4, MAX - 2, MAX - 1, MAX] {
				for price in [5, 6] {
					few.push(Mint { by: By::Root, amount, start, price });
				}
			}
		}
		let e = bfs(
			vec![empty.clone()],
			|m: &ext::Map| mc_core::digest(&m.clone().encode()),
			if run.thorough() { 12 } else { 4 },
			400_000,
			|m, trace| {
				run.traces(few.len() as u64);
				few.iter().filter_map(|op| mint_step(run, &tally, m, op, trace).map(|n| Succ { label: format!("{op:?}"), state: n })).collect()
			},
		);
		run.states(e.states);
		if !e.fixpoint {
			run.not_exhaustive();
		}
		run.info(&format!("explored sequences (last id repeats: {sticky})"), json!({"states": e.states, "depth": e.depth, "complete": e.fixpoint}));
	}
	run.sample(json!({"outcomes": tally.json()}));
	run.info("outcomes", tally.json());
	if !run.failed() && (tally.get("created") == 0 || tally.get("refused") == 0) {
		eprintln!("nothing was created: error of the check");
		std::process::exit(3);
	}
}

fn main() {
	let property = std::env::args().nth(1).expect("property");
	let run = Run::new(&property);
	run.assume("the libraries around the pallets are stand-ins written for these checks; the repository's own unit tests of the pallets pass on them");
	match property.as_str() {
		"G01" => registrations(&run),
		_ => creations(&run),
	}
	run.finish();
}
