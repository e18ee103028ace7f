//! Who may do what: every origin of the runtime against every gate the runtime configures.
use crate::world::*;
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg, PrivilegeCmp};
use kreivo_runtime::{Balance, BlockNumber, Runtime, RuntimeOrigin};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run};
use pallet_referenda::TracksInfo;
use shim_base::ext;
use sp_runtime::Perbill;
use std::cmp::Ordering;
use std::fmt::Debug;

type Collective = pallet_referenda::Instance1;
type Local = pallet_referenda::Instance2;

/// The verdict of a gate on an origin; a refusal must hand the origin back untouched.
fn ask<S>(run: &Run, gate: &str, w: &Who, f: impl Fn(RuntimeOrigin) -> Result<S, RuntimeOrigin>) -> Option<S> {
	match guard(|| f(w.origin())) {
		Ok(Ok(s)) => Some(s),
		Ok(Err(o)) => {
			run.check(o.caller == w.caller(), "a refused origin comes back as another", || json!({"gate": gate, "who": w.name(), "back": format!("{:?}", o.caller)}));
			None
		}
		Err(e) => {
			run.fail("a gate panics", json!({"gate": gate, "who": w.name(), "panic": e}));
			None
		}
	}
}
fn verdict<S: PartialEq + Debug>(run: &Run, gate: &str, w: &Who, got: Option<S>, want: Option<S>) {
	let what = match (&got, &want) {
		(Some(_), None) => "an origin passes that should not",
		(None, Some(_)) => "an origin is refused that should pass",
		_ => "an origin passes as another party",
	};
	run.check(got == want, what, || json!({"gate": gate, "who": w.name(), "got": format!("{got:?}"), "want": format!("{want:?}")}));
	run.states(1);
	run.transitions(1);
	run.traces(1);
}
fn root<S>(w: &Who, s: S) -> Option<S> {
	(*w == Who::Root).then_some(s)
}
fn signed(w: &Who) -> Option<Acc> {
	match w {
		Who::Signed(a) => Some(a.clone()),
		_ => None,
	}
}
fn community(w: &Who) -> Option<u16> {
	match w {
		Who::Community(c, _) => Some(*c),
		_ => None,
	}
}

pub fn k05(run: Run) {
	type T = <Runtime as pallet_referenda::Config<Collective>>::Tracks;
	fn info(id: u16) -> Option<pallet_referenda::TrackInfo<Balance, BlockNumber>> {
		<T as TracksInfo<Balance, BlockNumber>>::info(id).map(|c| c.into_owned())
	}
	let map = chain_with_communities();
	ext::restore(&map);
	let tracks: Vec<_> = <T as TracksInfo<Balance, BlockNumber>>::tracks().map(|t| t.into_owned()).collect();
	run.check(tracks.windows(2).all(|w| w[0].id < w[1].id), "tracks are not in order", || json!(tracks.iter().map(|t| t.id).collect::<Vec<_>>()));
	run.check(customs() == 3, "there are governance origins nobody decided about", || json!({"origins": customs()}));
	let who = everybody();
	let mut used = std::collections::BTreeMap::new();
	for w in &who {
		let got = <T as TracksInfo<Balance, BlockNumber>>::track_for(&w.caller()).ok();
		let special = matches!(w, Who::Root | Who::Canceller | Who::Killer | Who::CreateMemberships);
		run.check(got.is_some() == special, if special { "an origin has no track" } else { "an origin has a track it should not have" }, || json!({"who": w.name(), "track": got}));
		if let Some(id) = got {
			if let Some(before) = used.insert(id, w.name()) {
				run.fail("two origins share a track", json!({"track": id, "first": before, "second": w.name()}));
			}
			run.check(tracks.iter().any(|t| t.id == id) && info(id).is_some(), "an origin is assigned a track that is missing", || json!({"who": w.name(), "track": id}));
			run.sample(json!({"who": w.name(), "track": id}));
			// the name of the track says whom it is for
			let name = info(id).map(|i| String::from_utf8_lossy(&i.name).to_lowercase()).unwrap_or_default();
			let says = match w {
				Who::Root => "root",
				Who::Canceller => "cancel",
				Who::Killer => "kill",
				_ => "membership",
			};
			run.check(name.contains(says), "an origin is assigned another's track", || json!({"who": w.name(), "track": name}));
		}
		run.states(1);
		run.transitions(1);
		run.traces(1);
	}
	run.check(used.len() == tracks.len(), "a track is for nobody", || json!({"tracks": tracks.len(), "used": used.len()}));
	for t in &tracks {
		let i = &t.info;
		run.check(i.max_deciding > 0 && i.decision_period > 0 && i.decision_deposit > 0, "a track can never decide", || json!({"track": t.id}));
		let seen = <T as TracksInfo<Balance, BlockNumber>>::info(t.id).map(|x| x.into_owned());
		run.check(seen.as_ref() == Some(i), "a track is looked up as another", || json!({"track": t.id}));
		let n = i.decision_period.min(if DEEP { 1_000_000 } else { 100_000 });
		let (mut approval, mut support) = (Perbill::one(), Perbill::one());
		for k in 0..=n {
			let x = Perbill::from_rational(k, n);
			let (a, s) = (i.min_approval.threshold(x), i.min_support.threshold(x));
			run.check(a <= approval && s <= support, "a threshold rises over time", || json!({"track": t.id, "step": k, "of": n}));
			run.check(a > Perbill::from_percent(49), "less than half approves", || json!({"track": t.id, "step": k, "of": n}));
			(approval, support) = (a, s);
		}
		run.states(n as u64 + 1);
		run.transitions(2 * (n as u64 + 1));
		// the rarer the power, the higher the bar
		let root = info(0).unwrap();
		run.check(root.decision_deposit >= i.decision_deposit && root.min_approval.threshold(Perbill::one()) >= approval, "root's track is easier than another", || json!({"track": t.id}));
	}
	run.info("tracks", json!(tracks.len()));
	run.finish()
}

pub fn k08(run: Run) {
	type C = <Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp;
	let who = everybody();
	par_for(who.len(), 8, |i| {
		for b in &who {
			let a = &who[i];
			let want = if a == b {
				Some(Ordering::Equal)
			} else if *a == Who::Root {
				Some(Ordering::Greater)
			} else {
				None
			};
			let got = guard(|| <C as PrivilegeCmp<_>>::cmp_privilege(&a.caller(), &b.caller()));
			// that everything is below root may be said as well
			let less = *b == Who::Root && a != b && got == Ok(Some(Ordering::Less));
			run.check(got == Ok(want) || less, "privileges compare differently", || json!({"left": a.name(), "right": b.name(), "got": format!("{got:?}"), "want": format!("{want:?}")}));
		}
		run.states(who.len() as u64);
		run.transitions(who.len() as u64);
		run.traces(who.len() as u64);
	});
	run.sample(json!({"left": "Root", "right": who[9].name(), "verdict": "Greater"}));
	run.sample(json!({"left": who[9].name(), "right": who[10].name(), "verdict": null}));
	run.info("origins", json!(who.len()));
	run.finish()
}

pub fn k11(run: Run) {
	type C = Runtime;
	let who = {
		let mut v = everybody();
		v.extend((1..=3).map(|c| Who::Signed(acc(ADMIN[c]))));
		v
	};
	// communities 1 and 2 active, 3 blocked; 1's admin moved to an odd origin in some layouts
	let base = chain_with_communities();
	let layouts: Vec<(&str, ext::Map, Vec<(Who, u16)>)> = {
		let mut v = vec![("registered", base.clone(), (1..=3).map(|c| (Who::Signed(acc(ADMIN[c as usize])), c)).collect::<Vec<_>>())];
		for (name, new) in [("admin is an account", Who::Signed(acc(4))), ("admin is a governance origin", Who::Killer), ("admin is another community", Who::Signed(community_account(2))), ("admin is a foreign chain", Who::Sibling(1000))] {
			ext::restore(&base);
			dispatch(pallet_communities::Call::<C>::new_call_variant_set_admin_origin(new.caller()), &Who::Signed(acc(ADMIN[1]))).expect("moves");
			v.push((name, ext::snapshot(), vec![(new, 1), (Who::Signed(acc(ADMIN[2])), 2), (Who::Signed(acc(ADMIN[3])), 3)]));
		}
		v.push(("nothing registered", empty_chain(&[(acc(1), UNIT)], &[], &[]), vec![]));
		v
	};
	for (layout, map, admins) in &layouts {
		let active = |c: u16| !admins.is_empty() && (c == 1 || c == 2);
		par_for(who.len(), 8, |i| {
			ext::restore(map);
			let w = &who[i];
			let admin = admins.iter().find(|(a, _)| a == w).map(|(_, c)| *c);
			let named = community(w).or(admin).filter(|c| active(*c));
			let own = signed(w).as_ref().and_then(community_of);
			let gates: [(&str, Option<u16>); 2] = [
				("AdminOrigin", ask(&run, "AdminOrigin", w, |o| <<C as pallet_communities::Config>::AdminOrigin as EnsureOrigin<_>>::try_origin(o))),
				("MemberMgmtOrigin", ask(&run, "MemberMgmtOrigin", w, |o| <<C as pallet_communities::Config>::MemberMgmtOrigin as EnsureOrigin<_>>::try_origin(o))),
			];
			for (gate, got) in gates {
				let gate = format!("{gate} ({layout})");
				match (named, own) {
					(Some(c), _) => verdict(&run, &gate, w, got, Some(c)),
					// whether the account of a community that is not active speaks for it is left open
					(None, Some(c)) if !active(c) => verdict(&run, &gate, w, got.or(Some(c)), Some(c)),
					(None, own) => verdict(&run, &gate, w, got, own),
				}
			}
			let create = ask(&run, "CreateOrigin", w, |o| <<C as pallet_communities::Config>::CreateOrigin as EnsureOrigin<_>>::try_origin(o));
			verdict(&run, "CreateOrigin", w, create, None);
			let memberships = ask(&run, "CreateMembershipsOrigin", w, |o| <<C as pallet_communities_manager::Config>::CreateMembershipsOrigin as EnsureOrigin<_>>::try_origin(o).map(|_| ()));
			verdict(&run, "CreateMembershipsOrigin", w, memberships, matches!(w, Who::Root | Who::CreateMemberships).then_some(()));
			let register = ask(&run, "RegisterOrigin", w, |o| <<C as pallet_communities_manager::Config>::RegisterOrigin as EnsureOrigin<_>>::try_origin(o));
			let price = match w {
				Who::Root => Some(None),
				Who::Signed(a) => Some(Some((UNIT / 2, a.clone(), treasury()))),
				_ => None,
			};
			verdict(&run, "RegisterOrigin", w, register, price);
		});
	}
	// the same by calling: what a gate lets through changes exactly that community
	let (_, map, admins) = &layouts[0];
	par_for(who.len(), 8, |i| {
		let w = &who[i];
		ext::restore(map);
		let method = pallet_communities::types::DecisionMethod::Rank;
		for c in [1u16, 2] {
			ext::restore(map);
			let before = ext::snapshot();
			let r = guard(|| dispatch(pallet_communities::Call::<C>::new_call_variant_set_decision_method(c, method.clone()), w).is_ok());
			let may = community(w) == Some(c) || admins.iter().any(|(a, x)| a == w && *x == c) || signed(w).as_ref().and_then(community_of) == Some(c);
			run.check(r == Ok(may), "settings of a community change hands", || json!({"who": w.name(), "community": c, "changed": format!("{r:?}")}));
			run.check(may || ext::snapshot() == before, "a refused call leaves traces", || json!({"who": w.name(), "community": c}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		}
	});
	run.sample(json!({"layouts": layouts.iter().map(|l| l.0).collect::<Vec<_>>(), "origins": who.len()}));
	run.sample(json!({"who": who[20].name(), "gates": 5}));
	run.finish()
}

pub fn k12(run: Run) {
	type C = Runtime;
	let base = chain_with_communities();
	// members: account 1 of community 1, account 2 of community 2, account 3 of both, account 4 once was
	ext::restore(&base);
	for (c, who, m) in [(1, 1, 10), (2, 2, 20), (1, 3, 11), (2, 3, 21), (1, 4, 12)] {
		join(c, m, &acc(who));
	}
	dispatch(pallet_communities::Call::<C>::new_call_variant_remove_member(sp_runtime::MultiAddress::Id(acc(4)), 12), &Who::Community(1, 0)).expect("leaves");
	let map = ext::snapshot();
	let members = |c: u16, a: &Acc| match c {
		1 => *a == acc(1) || *a == acc(3),
		2 => *a == acc(2) || *a == acc(3),
		_ => false,
	};
	let who = everybody();
	let ids: Vec<u16> = IDS.to_vec();
	// the track an origin has: that of its community, whole
	let track = |w: &Who| match w {
		Who::Community(c @ 1..=3, 0) => Some(*c),
		_ => None,
	};
	par_for(who.len(), 4, |i| {
		ext::restore(&map);
		let w = &who[i];
		for t in &who {
			let got = ask(&run, "SubmitOrigin", w, |o| <<C as pallet_referenda::Config<Local>>::SubmitOrigin as EnsureOriginWithArg<_, _>>::try_origin(o, &t.caller()));
			let want = match w {
				Who::Root => Some(treasury()),
				Who::Signed(a) => track(t).filter(|c| members(*c, a)).map(|_| a.clone()),
				_ => None,
			};
			verdict(&run, &format!("SubmitOrigin on the track of {}", t.name()), w, got, want);
			let wide = ask(&run, "SubmitOrigin (collective)", w, |o| <<C as pallet_referenda::Config<Collective>>::SubmitOrigin as EnsureOriginWithArg<_, _>>::try_origin(o, &t.caller()));
			verdict(&run, "SubmitOrigin (collective)", w, wide, signed(w));
		}
		for id in &ids {
			let got = ask(&run, "UpdateOrigin", w, |o| <<C as pallet_referenda_tracks::Config<pallet_referenda_tracks::Instance2>>::UpdateOrigin as EnsureOriginWithArg<_, _>>::try_origin(o, id));
			verdict(&run, &format!("UpdateOrigin of track {id}"), w, got, (track(w) == Some(*id)).then_some(()));
		}
		let a = ask(&run, "AdminOrigin of tracks", w, |o| <<C as pallet_referenda_tracks::Config<pallet_referenda_tracks::Instance2>>::AdminOrigin as EnsureOrigin<_>>::try_origin(o));
		verdict(&run, "AdminOrigin of tracks", w, a.map(|_| ()), root(w, ()));
		let a = ask(&run, "CancelOrigin", w, |o| <<C as pallet_referenda::Config<Local>>::CancelOrigin as EnsureOrigin<_>>::try_origin(o).map(|_| ()));
		verdict(&run, "CancelOrigin of communities", w, a, root(w, ()));
		let a = ask(&run, "KillOrigin", w, |o| <<C as pallet_referenda::Config<Local>>::KillOrigin as EnsureOrigin<_>>::try_origin(o).map(|_| ()));
		verdict(&run, "KillOrigin of communities", w, a, root(w, ()));
		let a = ask(&run, "CancelOrigin", w, |o| <<C as pallet_referenda::Config<Collective>>::CancelOrigin as EnsureOrigin<_>>::try_origin(o).map(|_| ()));
		verdict(&run, "CancelOrigin of the collective", w, a, (*w == Who::Canceller).then_some(()));
		let a = ask(&run, "KillOrigin", w, |o| <<C as pallet_referenda::Config<Collective>>::KillOrigin as EnsureOrigin<_>>::try_origin(o).map(|_| ()));
		verdict(&run, "KillOrigin of the collective", w, a, (*w == Who::Killer).then_some(()));
	});
	run.sample(json!({"origins": who.len(), "tracks": who.len(), "members_of_1": [enc(&acc(1)), enc(&acc(3))]}));
	run.sample(json!({"who": "account 4, once a member of community 1", "submits": false}));
	run.finish()
}

/// Every other gate of the runtime.
pub fn k17(run: Run) {
	type C = Runtime;
	let who = everybody();
	let map = chain_with_communities();
	let relay_defence = |w: &Who| match w {
		Who::Xcm(l) => {
			use xcm::latest::prelude::*;
			matches!((l.parents, l.interior.as_slice()), (1, [Plurality { id: BodyId::Defense, part: BodyPart::Voice }]))
		}
		_ => false,
	};
	macro_rules! gate {
		($w:expr, $name:literal, $t:ty, $want:expr) => {
			verdict(&run, $name, $w, ask(&run, $name, $w, |o| <$t as EnsureOrigin<RuntimeOrigin>>::try_origin(o)).map(|_| ()), $want)
		};
	}
	macro_rules! party {
		($w:expr, $name:literal, $t:ty, $want:expr) => {
			verdict(&run, $name, $w, ask(&run, $name, $w, |o| <$t as EnsureOrigin<RuntimeOrigin>>::try_origin(o)), $want)
		};
	}
	par_for(who.len(), 4, |i| {
		ext::restore(&map);
		let w = &who[i];
		let only_root = root(w, ());
		gate!(w, "assets: force", <C as pallet_assets::Config<pallet_assets::Instance1>>::ForceOrigin, only_root);
		for id in [virto_common::FungibleAssetLocation::Here(1), virto_common::FungibleAssetLocation::Here(77)] {
			let got = ask(&run, "assets: create", w, |o| <<C as pallet_assets::Config<pallet_assets::Instance1>>::CreateOrigin as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(o, &id));
			verdict(&run, "assets: create", w, got, None);
		}
		gate!(w, "treasury: reject", <C as pallet_treasury::Config>::RejectOrigin, only_root);
		gate!(w, "treasury: spend", <C as pallet_treasury::Config>::SpendOrigin, None);
		gate!(w, "messages: administration", <C as pallet_xcm::Config>::AdminOrigin, only_root);
		gate!(w, "message queues: control", <C as cumulus_pallet_xcmp_queue::Config>::ControllerOrigin, only_root);
		gate!(w, "collators: update", <C as pallet_collator_selection::Config>::UpdateOrigin, (*w == Who::Root || relay_defence(w)).then_some(()));
		gate!(w, "preimages: manage", <C as pallet_preimage::Config>::ManagerOrigin, only_root);
		gate!(w, "scheduler: schedule", <C as pallet_scheduler::Config>::ScheduleOrigin, only_root);
		gate!(w, "memberships: force", <C as pallet_nfts::Config<pallet_nfts::Instance2>>::ForceOrigin, only_root);
		for id in IDS {
			let got = ask(&run, "memberships: create", w, |o| <<C as pallet_nfts::Config<pallet_nfts::Instance2>>::CreateOrigin as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(o, &id));
			verdict(&run, "memberships: create", w, got, root(w, treasury()));
		}
		type Ranked = pallet_ranked_collective::Instance1;
		gate!(w, "collective: add", <C as pallet_ranked_collective::Config<Ranked>>::AddOrigin, None);
		party!(w, "collective: promote", <C as pallet_ranked_collective::Config<Ranked>>::PromoteOrigin, root(w, 65535));
		party!(w, "collective: demote", <C as pallet_ranked_collective::Config<Ranked>>::DemoteOrigin, root(w, 65535));
		party!(w, "collective: remove", <C as pallet_ranked_collective::Config<Ranked>>::RemoveOrigin, root(w, 65535));
		gate!(w, "collective: exchange", <C as pallet_ranked_collective::Config<Ranked>>::ExchangeOrigin, only_root);
		party!(w, "payments: send", <C as pallet_payments::Config>::SenderOrigin, community(w).map(community_account).or(signed(w)));
		party!(w, "payments: receive", <C as pallet_payments::Config>::BeneficiaryOrigin, signed(w));
		party!(w, "payments: resolve disputes", <C as pallet_payments::Config>::DisputeResolver, root(w, treasury()));
		let user = Default::default();
		let got = ask(&run, "passkeys: register", w, |o| <<C as pallet_pass::Config>::RegisterOrigin as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(o, &user));
		// root and communities register for free, everybody else pays for it
		let want = match w {
			Who::Root | Who::Community(..) => Some(false),
			Who::Signed(_) => Some(true),
			_ => None,
		};
		verdict(&run, "passkeys: register", w, got.map(|p| p.is_some()), want);
	});
	run.sample(json!({"origins": who.len(), "who": who[3].name()}));
	run.sample(json!({"gate": "collators: update", "who": "Defense body of the relay chain, whole", "passes": true}));
	run.finish()
}

/// Who pays what for a new community, and what it comes with.
pub fn k25(run: Run) {
	use frame_support::traits::nonfungibles_v2::InspectEnumerable as _;
	use frame_support::traits::{fungible::Inspect as _, RankedMembers};
	use kreivo_runtime::{Balances, Communities, CommunityMemberships, CommunityTracks, KreivoCollective, System};
	use mc_core::Tallier;
	use pallet_communities::types::DecisionMethod;
	use pallet_referenda::TracksInfo;
	use sp_runtime::MultiAddress;
	type Reg = pallet_communities_manager::Call<Runtime>;
	type Com = pallet_communities::Call<Runtime>;
	let ed = Balances::minimum_balance();
	let price = UNIT / 2;
	let purses = [0, ed, price - 1, price, price + ed - 1, price + ed, price + ed + 1, 2 * price, 1000 * UNIT];
	// accounts 0x81.. have the purses
	let mut native = vec![(treasury(), 10 * UNIT), (community_account(7), 10 * UNIT), (acc(5), 3 * UNIT)];
	for (i, p) in purses.iter().enumerate() {
		if *p > 0 {
			native.push((acc(0x81 + i as u8), *p));
		}
	}
	let empty = empty_chain(&native, &[(kreivo_runtime::FungibleAssetLocation::Here(1), 1)], &[]);
	ext::restore(&empty);
	collection(0, treasury());
	let fresh = ext::snapshot();
	register(&Who::Root, 4, &acc(0x44)).expect("registers");
	System::reset_events();
	let other = ext::snapshot();
	let mut payers: Vec<Who> = (0..purses.len()).map(|i| Who::Signed(acc(0x81 + i as u8))).collect();
	payers.extend([Who::Root, Who::Nobody, Who::Signed(community_account(7)), Who::Signed(treasury()), Who::Community(4, 0), Who::CreateMemberships, Who::Killer, Who::Relay, Who::Xcm(xcm::latest::Location::parent())]);
	let names: [&[u8]; 5] = [b"", b"Virto", "\u{f1}and\u{fa}".as_bytes(), b"\xff\xfe", b"a name of twenty-five by.."];
	let admins: Vec<(MultiAddress<Acc, u16>, Option<Acc>)> = vec![
		(MultiAddress::Id(acc(0x22)), Some(acc(0x22))),
		(MultiAddress::Id(acc(0x44)), Some(acc(0x44))),
		(MultiAddress::Id(community_account(7)), Some(community_account(7))),
		(MultiAddress::Index(9), Some(community_account(9))),
		(MultiAddress::Raw(vec![1, 2]), None),
		(MultiAddress::Address20([1; 20]), None),
	];
	let methods = [None, Some(DecisionMethod::Rank), Some(DecisionMethod::NativeToken), Some(DecisionMethod::CommunityAsset(kreivo_runtime::FungibleAssetLocation::Here(1), 1))];
	let ids = [1u16, 4, 0, 9, 255, 256, 65535];
	let total = payers.len() * names.len() * admins.len() * methods.len() * ids.len() * 2;
	let tally = Tallier::default();
	par_for(total, 64, |mut k| {
		let mut take = |n: usize| {
			let r = k % n;
			k /= n;
			r
		};
		let (by, name, admin, method, id) = (&payers[take(payers.len())], names[take(names.len())], &admins[take(admins.len())], &methods[take(methods.len())], ids[take(ids.len())]);
		let before = if take(2) == 0 { &fresh } else { &other };
		let busy = core::ptr::eq(before, &other);
		let case = || json!({"by": by.name(), "name": String::from_utf8_lossy(name), "admin": format!("{:?}", admin.0), "method": format!("{method:?}"), "id": id, "community 4 exists": busy});
		let Ok(bounded) = frame_support::BoundedVec::try_from(name.to_vec()) else { return };
		ext::restore(before);
		let payer = match by {
			Who::Signed(a) => Some(a.clone()),
			_ => None,
		};
		let had = payer.as_ref().map(|a| Balances::total_balance(a));
		let (vault, supply) = (Balances::total_balance(&treasury()), Balances::total_issuance());
		let ok = guard(|| {
			dispatch(Reg::register { community_id: id, name: bounded, first_admin: admin.0.clone(), maybe_decision_method: method.clone(), maybe_track_info: None }, by).is_ok()
		});
		let pays = match (by, had) {
			(Who::Root, _) => Some(0),
			(Who::Signed(_), Some(h)) if h >= price + ed => Some(price),
			_ => None,
		};
		let sane = std::str::from_utf8(name).is_ok() && admin.1.is_some() && id != 0 && !(busy && (id == 4 || admin.1 == Some(acc(0x44))));
		let want = pays.is_some() && sane;
		let Ok(ok) = ok else {
			run.fail("registering panics", case());
			return;
		};
		run.check(ok == want, if want { "a community cannot be registered" } else { "a community is registered that should not" }, case);
		if !ok {
			run.check(ext::snapshot() == *before, "an attempt leaves traces", case);
		} else if let (Some(paid), Some(a)) = (pays, &admin.1) {
			let mut lost = payer.as_ref().map_or(0, |a| had.expect("known") - Balances::total_balance(a));
			let mut gained = Balances::total_balance(&treasury()) - vault;
			if payer == Some(treasury()) {
				// out of one pocket into the other
				lost += paid;
				gained += paid;
			}
			run.check(lost == paid && gained == paid && Balances::total_issuance() == supply, "registering costs otherwise", || json!({"case": case(), "paid": lost.to_string(), "received": gained.to_string()}));
			let account = community_account(id);
			run.check(Communities::community_exists(&id), "the community does not exist", case);
			run.check(<CommunityMemberships as frame_support::traits::nonfungibles_v2::Inspect<Acc>>::collection_owner(&id) == Some(account.clone()), "its memberships belong to somebody else", case);
			run.check(KreivoCollective::rank_of(&account) == Some(0), "it takes no part in the chain's decisions", case);
			run.check(CommunityTracks::track_for(&Who::Community(id, 0).caller()).ok() == Some(id) && <CommunityTracks as TracksInfo<u128, u32>>::info(id).is_some(), "it cannot decide", case);
			run.check(CommunityMemberships::items(&id).count() == 0, "it has members from the start", case);
			// administered by the one named, and nobody else
			let set = |w: &Who| guard(|| dispatch(Com::new_call_variant_set_decision_method(id, DecisionMethod::Membership), w).is_ok());
			let map = ext::snapshot();
			for (w, may) in [(Who::Signed(a.clone()), true), (Who::Signed(acc(0x55)), false), (Who::Signed(acc(0x44)), *a == acc(0x44)), (by.clone(), by == &Who::Signed(a.clone()) || *by == Who::Signed(account.clone())), (Who::Community(id, 0), true), (Who::Signed(account.clone()), true)] {
				ext::restore(&map);
				run.check(set(&w) == Ok(may), "administered by somebody else", || json!({"case": case(), "who": w.name()}));
				run.transitions(1);
			}
		}
		tally.hit(if ok { "registered" } else { "refused" });
		run.states(1);
		run.transitions(1);
		run.traces(1);
	});
	run.info("outcomes", tally.json());
	run.sample(json!({"by": "an account with exactly the price and the minimum", "outcome": "registered, half a unit to the treasury"}));
	if !run.failed() && tally.get("registered") == 0 {
		eprintln!("nothing was registered: error of the check");
		std::process::exit(3);
	}
	run.finish()
}
