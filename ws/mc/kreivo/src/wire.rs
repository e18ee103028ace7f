//! What is agreed with everybody outside of the chain: numbers and layouts of calls, origins and records.
use crate::world::*;
use frame_support::traits::PalletInfoAccess;
use kreivo_runtime::*;
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run};
use pallet_communities::types::{DecisionMethod, Vote};
use parity_scale_codec::{Decode, DecodeAll, Encode};
use shim_base::ext;
use sp_runtime::traits::MaybeEquivalence;
use sp_runtime::{MultiAddress, Percent};
use virto_common::PaymentId;
use xcm::latest::prelude::{Ethereum, GeneralIndex, GlobalConsensus, Location, NetworkId, PalletInstance, Parachain};

type Bytes = Vec<u8>;
/// A number in as few bytes as it takes, the lowest bits telling how many.
fn compact(n: u128) -> Bytes {
	if n < 1 << 6 {
		vec![(n as u8) << 2]
	} else if n < 1 << 14 {
		((n as u16) << 2 | 1).to_le_bytes().to_vec()
	} else if n < 1 << 30 {
		((n as u32) << 2 | 2).to_le_bytes().to_vec()
	} else {
		let b = n.to_le_bytes();
		let len = (16 - n.leading_zeros() as usize / 8).max(4);
		[&[((len - 4) as u8) << 2 | 3], &b[..len]].concat()
	}
}
fn address(a: &Acc) -> Bytes {
	[&[0u8][..], a.as_ref()].concat()
}
fn optional(b: Option<Bytes>) -> Bytes {
	b.map_or(vec![0], |b| [vec![1], b].concat())
}
fn list(b: &[u8]) -> Bytes {
	[compact(b.len() as u128), b.to_vec()].concat()
}
/// All sorts of assets with the bytes they are known by.
fn assets() -> Vec<(FungibleAssetLocation, Bytes)> {
	let para = |id: u16, pallet: u8, index: u32| [&id.to_le_bytes()[..], &[pallet], &index.to_le_bytes()].concat();
	let known = |l: Location| <virto_common::AsFungibleAssetLocation as MaybeEquivalence<_, _>>::convert(&l).expect("an asset");
	let sibling = |id: u32, pallet, index: u32| known(Location::new(1, [Parachain(id), PalletInstance(pallet), GeneralIndex(index as u128)]));
	let far = |n: NetworkId| known(Location::new(2, [GlobalConsensus(n)]));
	let farther = |n: NetworkId, id, pallet, index: u32| known(Location::new(2, [GlobalConsensus(n), Parachain(id), PalletInstance(pallet), GeneralIndex(index as u128)]));
	let mut v = vec![];
	for n in [0u32, 1, 255, 256, 0x01020304, u32::MAX] {
		v.push((FungibleAssetLocation::Here(n), [&[0][..], &n.to_le_bytes()].concat()));
		v.push((sibling(1000, 50, n), [vec![1], para(1000, 50, n)].concat()));
		v.push((farther(NetworkId::Polkadot, 0x0102, 3, n), [vec![2, 0, 1], para(0x0102, 3, n)].concat()));
		v.push((far(Ethereum { chain_id: n as u64 + 7 }), [&[2, 2][..], &(n as u64 + 7).to_le_bytes(), &[0]].concat()));
	}
	v.push((far(NetworkId::Polkadot), vec![2, 0, 0]));
	v.push((farther(NetworkId::Kusama, 65535, 255, 9), [vec![2, 1, 1], para(65535, 255, 9)].concat()));
	v
}
fn methods() -> Vec<(DecisionMethod<FungibleAssetLocation, u128>, Bytes)> {
	let mut v = vec![(DecisionMethod::Membership, vec![0]), (DecisionMethod::NativeToken, vec![1]), (DecisionMethod::Rank, vec![3])];
	for (a, b) in assets() {
		for min in [0u128, 10, u128::MAX] {
			v.push((DecisionMethod::CommunityAsset(a, min), [&[2][..], &b, &min.to_le_bytes()].concat()));
		}
	}
	v
}
fn votes() -> Vec<(Vote<FungibleAssetLocation, u128, u128>, Bytes)> {
	let mut v = vec![];
	for aye in [false, true] {
		v.push((Vote::Standard(aye), vec![2, aye as u8]));
		for n in [0u128, 1, 1 << 40, u128::MAX] {
			v.push((Vote::NativeBalance(aye, n), [&[1, aye as u8][..], &n.to_le_bytes()].concat()));
			for (a, b) in assets() {
				v.push((Vote::AssetBalance(aye, a, n), [&[0, aye as u8][..], &b, &n.to_le_bytes()].concat()));
			}
		}
	}
	v
}
/// Who may stand behind something, with the bytes they are known by.
fn origins() -> Vec<(Who, Bytes)> {
	let mut v = vec![(Who::Root, vec![0, 0]), (Who::Nobody, vec![0, 2]), (Who::CreateMemberships, vec![4, 0]), (Who::Canceller, vec![4, 1]), (Who::Killer, vec![4, 2])];
	for a in accounts() {
		v.push((Who::Signed(a.clone()), [&[0, 1][..], a.as_ref()].concat()));
	}
	for c in 0..=u16::MAX {
		v.push((Who::Community(c, 0), [&[71][..], &c.to_le_bytes(), &[0]].concat()));
	}
	for c in IDS {
		// a member, a number of members, a part of them, those of a rank
		let parts: [Bytes; 4] = [vec![1, 0, 7, 0, 0, 0], vec![1, 1, 3, 0, 0, 0], [&[1, 2][..], &250_000u32.to_le_bytes()].concat(), vec![1, 3, 0]];
		for (n, p) in parts.iter().enumerate() {
			v.push((Who::Community(c, n as u8 + 1), [&[71][..], &c.to_le_bytes(), p].concat()));
		}
	}
	v
}
fn ids() -> Vec<(PaymentId, Bytes)> {
	let mut v = vec![];
	for b in [0u32, 1, 0x01020304, u32::MAX] {
		for i in [0u32, 1, 0x0102, 65535] {
			let to = [0xab, 0xcd];
			v.push((PaymentId::from((b, i, &to[..])), [&to[..], &(i as u16).to_le_bytes(), &b.to_le_bytes()].concat()));
		}
	}
	v
}

pub fn k27(run: Run) {
	type Pay = pallet_payments::Call<Runtime>;
	type Com = pallet_communities::Call<Runtime>;
	type Man = pallet_communities_manager::Call<Runtime>;
	let amounts = {
		let mut v: Vec<u128> = vec![0, 1, u128::MAX];
		for k in [6, 14, 30, 32, 40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120] {
			v.extend([(1u128 << k) - 1, 1 << k]);
		}
		v
	};
	let small: Vec<u32> = amounts.iter().filter_map(|n| u32::try_from(*n).ok()).chain([u32::MAX]).collect();
	let who = [acc(0), acc(7), community_account(513), treasury()];
	let mut calls: Vec<(&str, RuntimeCall, Bytes)> = vec![];
	let mut put = |name: &'static str, c: RuntimeCall, number: [u8; 2], args: &[&[u8]]| calls.push((name, c, [&number[..], &args.concat()].concat()));
	let id = |a: &Acc| MultiAddress::Id(a.clone());

	for w in &who {
		for (a, ab) in assets() {
			for n in &amounts {
				for remark in [None, Some(0usize), Some(1), Some(50)] {
					let remark = remark.map(|n| (0..n as u8).collect::<Bytes>());
					let bounded = match remark.clone().map(|r| r.try_into()).transpose() {
						Ok(b) => b,
						Err(_) => {
							run.fail("a remark that was allowed is too long", json!({"bytes": remark.map(|r| r.len())}));
							continue;
						}
					};
					put("pay", Pay::new_call_variant_pay(id(w), a, *n, bounded).into(), [60, 0], &[&address(w), &ab, &compact(*n), &optional(remark.map(|r| list(&r)))]);
				}
				put("request a payment", Pay::new_call_variant_request_payment(id(w), a, *n).into(), [60, 12], &[&address(w), &ab, &compact(*n)]);
			}
		}
		put("add a member", Com::new_call_variant_add_member(id(w)).into(), [71, 3], &[&address(w)]);
		for m in &small {
			put("remove a member", Com::new_call_variant_remove_member(id(w), *m).into(), [71, 4], &[&address(w), &m.to_le_bytes()]);
		}
	}
	for (p, pb) in ids() {
		put("release", Pay::new_call_variant_release(p).into(), [60, 1], &[&pb]);
		put("ask for a refund", Pay::new_call_variant_request_refund(p).into(), [60, 2], &[&pb]);
		put("accept and pay", Pay::new_call_variant_accept_and_pay(p).into(), [60, 3], &[&pb]);
		put("cancel", Pay::new_call_variant_cancel(p).into(), [60, 10], &[&pb]);
		put("dispute", Pay::new_call_variant_dispute_refund(p).into(), [60, 11], &[&pb]);
		for percent in 0..=100u8 {
			for (role, favoured) in [(0u8, pallet_payments::Role::Sender), (1, pallet_payments::Role::Beneficiary)] {
				let verdict = pallet_payments::DisputeResult { percent_beneficiary: Percent::from_percent(percent), in_favor_of: favoured };
				put("resolve a dispute", Pay::new_call_variant_resolve_dispute(p, verdict).into(), [60, 20], &[&pb, &[percent, role]]);
			}
		}
	}
	for (o, ob) in origins() {
		let c = ob.iter().fold(5u16, |n, b| n.wrapping_mul(31).wrapping_add(*b as u16));
		put("create", Com::new_call_variant_create(o.caller(), c).into(), [71, 0], &[&ob, &c.to_le_bytes()]);
		put("hand over", Com::new_call_variant_set_admin_origin(o.caller()).into(), [71, 1], &[&ob]);
	}
	for m in &small {
		put("promote", Com::new_call_variant_promote(*m).into(), [71, 5], &[&m.to_le_bytes()]);
		put("demote", Com::new_call_variant_demote(*m).into(), [71, 6], &[&m.to_le_bytes()]);
		for p in &small {
			for (v, vb) in votes().into_iter().step_by(if *m == 0 { 1 } else { 17 }) {
				put("vote", Com::new_call_variant_vote(*m, *p, v).into(), [71, 8], &[&m.to_le_bytes(), &compact(*p as u128), &vb]);
			}
			put("take back a vote", Com::new_call_variant_remove_vote(*m, *p).into(), [71, 9], &[&m.to_le_bytes(), &compact(*p as u128)]);
		}
		put("unlock", Com::new_call_variant_unlock(*m).into(), [71, 10], &[&compact(*m as u128)]);
		for n in [0u16, 1, 255, 256, 1024, 65535] {
			for price in &amounts {
				put("create memberships", Man::new_call_variant_create_memberships(n, *m, *price).into(), [75, 1], &[&n.to_le_bytes(), &m.to_le_bytes(), &compact(*price)]);
			}
		}
	}
	for c in IDS {
		for (m, mb) in methods() {
			put("set how to decide", Com::new_call_variant_set_decision_method(c, m.clone()).into(), [71, 7], &[&c.to_le_bytes(), &mb]);
			for w in &who {
				for name in [&b""[..], b"C", b"a name of twenty-five char"[..25].as_ref()] {
					for method in [None, Some((m.clone(), mb.clone()))] {
						put(
							"register",
							Man::new_call_variant_register(c, name.to_vec().try_into().expect("short enough"), id(w), method.clone().map(|m| m.0), None).into(),
							[75, 0],
							&[&c.to_le_bytes(), &list(name), &address(w), &optional(method.map(|m| m.1)), &[0]],
						);
					}
				}
			}
		}
	}
	// each of them once more inside of the one that carries others
	let mut seen = std::collections::BTreeSet::new();
	let inner: Vec<_> = calls.iter().enumerate().filter(|(n, c)| seen.insert(c.0) || n % 997 == 0).map(|(_, c)| c.clone()).collect();
	for (_, c, b) in inner {
		let one = Com::new_call_variant_dispatch_as_account(Box::new(c));
		let two = Com::new_call_variant_dispatch_as_account(Box::new(one.clone().into()));
		calls.push(("act as the community", one.into(), [&[71, 11][..], &b].concat()));
		calls.push(("act as the community twice", two.into(), [&[71, 11, 71, 11][..], &b].concat()));
	}

	par_for(calls.len(), 64, |i| {
		let (name, c, want) = &calls[i];
		let case = || json!({"call": name, "bytes": hex(want), "now": enc(c)});
		run.check(c.encode() == *want, "a call is written otherwise", case);
		let read = guard(|| RuntimeCall::decode_all(&mut &want[..]).ok());
		run.check(matches!(&read, Ok(Some(r)) if r == c), "what is written means something else", || json!({"case": case(), "read": format!("{read:?}")}));
		// a call that is cut off is none
		for cut in 0..want.len() {
			let r = guard(|| RuntimeCall::decode_all(&mut &want[..cut]).is_ok());
			run.check(r == Ok(false), "part of a call is taken for one", || json!({"case": case(), "cut": cut}));
		}
		run.states(1);
		run.transitions(2 + want.len() as u64);
		run.traces(2);
	});
	for (o, want) in origins() {
		let caller = o.caller();
		run.check(caller.encode() == want, "an origin is written otherwise", || json!({"origin": o.name(), "bytes": hex(&want), "now": enc(&caller)}));
		let read = OriginCaller::decode(&mut &want[..]);
		run.check(read.as_ref() == Ok(&caller), "an origin is read otherwise", || json!({"origin": o.name(), "bytes": hex(&want)}));
		run.states(1);
		run.transitions(2);
		run.traces(2);
	}
	let hold: RuntimeHoldReason = pallet_payments::HoldReason::TransferPayment.into();
	run.check(hold.encode() == [60, 0], "held for another reason", || json!({"reason": enc(&hold)}));
	let freeze: RuntimeFreezeReason = pallet_communities::FreezeReason::VoteCasted.into();
	run.check(freeze.encode() == [71, 0], "frozen for another reason", || json!({"reason": enc(&freeze)}));
	macro_rules! pallets { ($($n:literal $p:ident)*) => { [$(($n, stringify!($p), <$p as PalletInfoAccess>::index(), <$p as PalletInfoAccess>::name())),*] } }
	for (n, name, index, called) in pallets! {
		0 System 1 ParachainSystem 2 Timestamp 3 ParachainInfo 4 Origins 6 Pass 10 Balances 11 TransactionPayment 12 AssetsFreezer 13 Assets
		14 AssetsTxPayment 15 Vesting 16 SkipFeeless 17 GasTxPayment 20 Authorship 21 CollatorSelection 22 Session 23 Aura 24 AuraExt
		30 XcmpQueue 31 PolkadotXcm 32 CumulusXcm 33 MessageQueue 42 Multisig 43 Utility 44 Proxy 45 Scheduler 46 Preimage
		50 Treasury 51 KreivoCollective 52 KreivoReferenda 60 Payments 71 Communities 72 CommunityTracks 73 CommunityReferenda
		74 CommunityMemberships 75 CommunitiesManager 80 Contracts
	} {
		run.check(index == n && called == name, "a part of the chain has another number or name", || json!({"part": name, "number": n, "now": index, "called": called}));
		run.states(1);
		run.transitions(1);
		run.traces(1);
	}
	run.sample(json!({"call": calls[0].0, "bytes": hex(&calls[0].2)}));
	run.sample(json!({"call": calls[calls.len() / 2].0, "bytes": hex(&calls[calls.len() / 2].2)}));
	run.info("calls", json!(calls.len()));
	run.assume("layouts of types the libraries define (addresses, lists, ratios, track terms) are those of the stand-ins");
	run.finish()
}

/// The records of an item of a pallet, with what follows the name in the key.
fn records(map: &ext::Map, pallet: &str, item: &str) -> Vec<(Bytes, Bytes)> {
	let prefix = (pallet, item).encode();
	map.iter().filter(|(k, _)| k.starts_with(&prefix)).map(|(k, v)| (k[prefix.len()..].to_vec(), v.clone())).collect()
}

/// What is on the chain already has to be readable for the next version of it.
pub fn k28(run: Run) {
	type Pay = pallet_payments::Call<Runtime>;
	type Com = pallet_communities::Call<Runtime>;
	let id = |a: &Acc| MultiAddress::Id(a.clone());
	let all = assets();
	let parties = [(Who::Signed(acc(1)), acc(1)), (Who::Signed(acc(2)), acc(2)), (Who::Signed(community_account(1)), community_account(1)), (Who::Community(2, 0), community_account(2))];
	let minimum = 3u128;
	let held: Vec<_> = all.iter().flat_map(|a| parties.iter().map(move |p| (a.0, p.1.clone(), 10 * UNIT))).collect();
	let mut native: Vec<_> = parties.iter().map(|p| (p.1.clone(), 1000 * UNIT)).collect();
	native.push((treasury(), 1000 * UNIT));
	let map = empty_chain(&native, &all.iter().map(|a| (a.0, minimum)).collect::<Vec<_>>(), &held);
	let fees = |who: &Acc, percent: u128, amount: u128| -> Bytes {
		if community_of(who).is_some() {
			return vec![0];
		}
		// one fee: to whom, how much, and that it is due in any case
		let t: [u8; 32] = treasury().into();
		[&[4][..], &t, &(amount * percent / 100).max(minimum).to_le_bytes(), &[1]].concat()
	};
	let blocks = [1u32, 2, 300, 70_000];
	let mut cases = vec![];
	for (s, _) in parties.iter().enumerate() {
		for (b, _) in parties.iter().enumerate() {
			for a in 0..all.len() {
				for amount in [10u128, 255, 256, 1 << 32] {
					for block in blocks {
						for index in [0u32, 1, 300] {
							if s != b {
								cases.push((s, b, a, amount, block, index));
							}
						}
					}
				}
			}
		}
	}
	par_for(cases.len(), 16, |i| {
		let (s, b, a, amount, block, index) = cases[i];
		let ((sw, sa), (bw, ba)) = (&parties[s], &parties[b]);
		let (asset, known) = &all[a];
		let to: [u8; 32] = ba.clone().into();
		let number: Bytes = [&to[..2], &(index as u16).to_le_bytes(), &block.to_le_bytes()].concat();
		let p = PaymentId::decode(&mut &number[..]).expect("eight bytes");
		let want = |state: &[u8]| -> (Vec<(Bytes, Bytes)>, Vec<(Bytes, Bytes)>) {
			let detail = [known, &amount.to_le_bytes()[..], ba.as_ref(), &(amount / 10).to_le_bytes(), state, &fees(sa, 1, amount), &fees(ba, 3, amount)].concat();
			let (sa, ba): (&[u8], &[u8]) = (sa.as_ref(), ba.as_ref());
			(vec![([sa, &number].concat(), detail)], vec![(number.clone(), [sa, ba].concat())])
		};
		let look = |what: &str, state: Option<&[u8]>| {
			let now = ext::snapshot();
			let got = (records(&now, "Payments", "Payment"), records(&now, "Payments", "PaymentParties"));
			if let Some(state) = state {
				let want = want(state);
				let show = |v: &Vec<(Bytes, Bytes)>| v.iter().map(|(k, v)| format!("{} -> {}", hex(k), hex(v))).collect::<Vec<_>>();
				run.check(got == want, "a payment is recorded otherwise", || json!({"from": sw.name(), "to": bw.name(), "amount": amount.to_string(), "block": block, "after": what, "got": [show(&got.0), show(&got.1)], "want": [show(&want.0), show(&want.1)]}));
				run.traces(1);
			}
			run.transitions(1);
		};
		let start = |c: Pay, w: &Who| {
			ext::restore(&map);
			System::set_block_number(block);
			System::set_extrinsic_index(index);
			guard(|| dispatch(c, w).is_ok())
		};
		if matches!(bw, Who::Signed(_)) {
			let r = start(Pay::new_call_variant_request_payment(id(sa), *asset, amount), bw);
			run.check(r == Ok(true), "cannot ask for a payment", || json!({"from": sw.name(), "to": bw.name()}));
			look("asking", Some(&[3]));
		}
		let r = start(Pay::new_call_variant_pay(id(ba), *asset, amount, None), sw);
		run.check(r == Ok(true), "cannot pay", || json!({"from": sw.name(), "to": bw.name()}));
		look("paying", Some(&[0]));
		let r = guard(|| dispatch(Pay::new_call_variant_request_refund(p), sw).is_ok());
		run.check(r == Ok(true), "cannot ask for a refund", || json!({"from": sw.name(), "to": bw.name()}));
		look("asking for a refund", Some(&[&[2][..], &(block + 14_400).to_le_bytes()].concat()));
		if matches!(bw, Who::Signed(_)) {
			let r = guard(|| dispatch(Pay::new_call_variant_dispute_refund(p), bw).is_ok());
			run.check(r == Ok(true), "cannot dispute", || json!({"from": sw.name(), "to": bw.name()}));
			look("disputing", Some(&[1]));
		}
		run.states(1);
	});

	// communities: who rules them, how they decide, what was voted and what is locked for it
	let clean = |m: &ext::Map, item: &str| records(m, "Communities", item);
	let one = |k: &[u8], v: &[u8]| vec![(k.to_vec(), v.to_vec())];
	ext::restore(&chain_with_communities());
	join(1, 11, &acc(0x31));
	join(1, 12, &acc(0x32));
	let map = ext::snapshot();
	let mut want: Vec<(Bytes, Bytes)> = vec![];
	for c in 1..=3u16 {
		want.push((c.to_le_bytes().to_vec(), vec![(c == 3) as u8]));
	}
	run.check(clean(&map, "Info") == want, "communities are recorded otherwise", || json!({"got": format!("{:?}", clean(&map, "Info"))}));
	let admins: Vec<(Bytes, Bytes)> = (1..=3u16).map(|c| ([&[0, 1][..], acc(ADMIN[c as usize]).as_ref()].concat(), c.to_le_bytes().to_vec())).collect();
	run.check(clean(&map, "CommunityIdFor") == admins, "who rules is recorded otherwise", || json!({"got": format!("{:?}", clean(&map, "CommunityIdFor"))}));
	run.states(2);
	run.traces(2);
	for (o, ob) in origins().into_iter().filter(|o| !admins.iter().any(|a| a.0 == o.1)).take(400) {
		ext::restore(&map);
		let r = guard(|| dispatch(Com::new_call_variant_set_admin_origin(o.caller()), &Who::Signed(acc(ADMIN[1]))).is_ok());
		let now = ext::snapshot();
		if r == Ok(true) {
			let mut want = admins.clone();
			want[0].0 = ob.clone();
			want.sort();
			run.check(clean(&now, "CommunityIdFor") == want, "who rules is recorded otherwise", || json!({"origin": o.name()}));
			run.traces(1);
		}
		run.states(1);
		run.transitions(1);
	}
	for (m, mb) in methods() {
		for c in [1u16, 2] {
			ext::restore(&map);
			let before = clean(&map, "CommunityDecisionMethod");
			let r = guard(|| dispatch(Com::new_call_variant_set_decision_method(c, m.clone()), &Who::Signed(acc(ADMIN[c as usize]))).is_ok());
			let now = clean(&ext::snapshot(), "CommunityDecisionMethod");
			if r == Ok(true) {
				let mut want: Vec<_> = before.into_iter().filter(|x| x.0 != c.to_le_bytes()).collect();
				want.push((c.to_le_bytes().to_vec(), mb.clone()));
				want.sort();
				run.check(now == want, "how to decide is recorded otherwise", || json!({"community": c, "method": format!("{m:?}"), "got": format!("{now:?}")}));
				run.traces(1);
			}
			run.states(1);
			run.transitions(1);
		}
	}
	// a vote in each currency
	type Ref = pallet_referenda::Call<Runtime, pallet_referenda::Instance2>;
	let propose = |n: u32| {
		for i in 0..n {
			let remark: RuntimeCall = frame_system::Call::<Runtime>::remark { remark: vec![i as u8] }.into();
			let proposal = <Preimage as frame_support::traits::StorePreimage>::bound(remark).expect("small");
			dispatch(Ref::submit { proposal_origin: Box::new(Who::Community(1, 0).caller()), proposal, enactment_moment: frame_support::traits::schedule::DispatchTime::After(1) }, &Who::Signed(acc(0x31))).expect("proposes");
			dispatch(Ref::place_decision_deposit { index: i }, &Who::Signed(acc(1))).expect("deposit");
		}
		run_to(3);
	};
	let mut cast = 0;
	for (m, v, vb, holds) in [
		(None, Vote::Standard(true), vec![2u8, 1], false),
		(None, Vote::Standard(false), vec![2, 0], false),
		(Some(DecisionMethod::Rank), Vote::Standard(true), vec![2, 1], false),
		(Some(DecisionMethod::NativeToken), Vote::NativeBalance(true, 0x0102030405), [&[1, 1][..], &0x0102030405u128.to_le_bytes()].concat(), true),
		(Some(DecisionMethod::NativeToken), Vote::NativeBalance(false, UNIT), [&[1, 0][..], &UNIT.to_le_bytes()].concat(), true),
		(Some(DecisionMethod::CommunityAsset(FungibleAssetLocation::Here(1), 1)), Vote::AssetBalance(true, FungibleAssetLocation::Here(1), 77), [&[0, 1, 0, 1, 0, 0, 0][..], &77u128.to_le_bytes()].concat(), true),
	] {
		for poll in [0u32, 1, 2] {
			for (n, (item, who)) in [(11u32, acc(0x31)), (12, acc(0x32))].into_iter().enumerate() {
				ext::restore(&map);
				for w in [acc(0x31), acc(0x32)] {
					let _ = dispatch(pallet_balances::Call::<Runtime>::force_set_balance { who: id(&w), new_free: 100 * UNIT }, &Who::Root);
					let _ = <Assets as frame_support::traits::fungibles::Mutate<Acc>>::mint_into(FungibleAssetLocation::Here(1), &w, 1000);
				}
				if let Some(m) = &m {
					dispatch(Com::new_call_variant_set_decision_method(1, m.clone()), &Who::Signed(acc(ADMIN[1]))).expect("set");
				}
				if m == Some(DecisionMethod::Rank) {
					for i in [11u32, 12] {
						dispatch(Com::new_call_variant_promote(i), &Who::Community(1, 0)).expect("promotes");
					}
				}
				propose(3);
				let r = guard(|| dispatch(Com::new_call_variant_vote(item, poll, v.clone()), &Who::Signed(who.clone())));
				let now = ext::snapshot();
				let case = || json!({"poll": poll, "membership": item, "vote": format!("{v:?}"), "method": format!("{m:?}"), "result": format!("{r:?}"), "votes": format!("{:?}", clean(&now, "CommunityVotes")), "locks": format!("{:?}", clean(&now, "CommunityVoteLocks"))});
				run.check(r == Ok(Ok(())), "cannot vote", case);
				run.check(clean(&now, "CommunityVotes") == one(&[poll.to_le_bytes(), item.to_le_bytes()].concat(), &[&vb[..], who.as_ref()].concat()), "a vote is recorded otherwise", case);
				let locks = if holds { one(&[who.as_ref(), &poll.to_le_bytes()[..]].concat(), &vb) } else { vec![] };
				run.check(clean(&now, "CommunityVoteLocks") == locks, "a lock is recorded otherwise", case);
				cast += 1;
				run.states(1);
				run.transitions(1);
				run.traces(2);
				if n == 0 && poll == 0 {
					run.sample(case());
				}
			}
		}
	}
	// what polls count
	use frame_support::traits::VoteTally;
	type Tally = <Runtime as pallet_referenda::Config<pallet_referenda::Instance2>>::Tally;
	for ayes in [0u32, 1, 300, u32::MAX] {
		for nays in [0u32, 2, u32::MAX] {
			for bare in [0u32, 3] {
				let bytes = [ayes, nays, bare].map(|n| n.to_le_bytes()).concat();
				let got = guard(|| Tally::decode_all(&mut &bytes[..]).ok().map(|t| (VoteTally::<u32, u16>::ayes(&t, 1), t.encode())));
				run.check(matches!(&got, Ok(Some((a, e))) if *a == ayes && *e == bytes), "a count is recorded otherwise", || json!({"bytes": hex(&bytes), "got": format!("{got:?}")}));
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}
	}
	run.info("votes cast", json!(cast));
	run.assume("keys are compared without the hash in front of them, which the stand-in for storage leaves out");
	run.finish()
}
