//! K29: what the chain answers when it is asked from outside.
use crate::world::*;
use frame_support::traits::{fungible, fungibles, Get, ReservableCurrency};
use kreivo_runtime::{Assets, *};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use shim_base::ext;
use sp_runtime::traits::MaybeEquivalence;
use xcm::latest::prelude::*;

const UNIT: u128 = 1_000_000_000_000;

pub fn k29(run: Run) {
	let places: Vec<Location> = vec![
		Location::new(0, [PalletInstance(13), GeneralIndex(1)]),
		Location::new(0, [PalletInstance(13), GeneralIndex(u32::MAX as u128)]),
		Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)]),
		Location::new(1, [Parachain(2281), PalletInstance(50), GeneralIndex(1984)]),
		Location::new(2, [GlobalConsensus(NetworkId::Polkadot)]),
		Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(1984)]),
		Location::new(2, [GlobalConsensus(NetworkId::Ethereum { chain_id: 1 })]),
	];
	let assets: Vec<_> = places.iter().map(|l| virto_common::AsFungibleAssetLocation::convert(l)).collect();
	run.check(assets.iter().all(|a| a.is_some()), "an asset cannot be named", || json!({"assets": format!("{assets:?}")}));
	if run.failed() {
		run.finish();
	}
	let assets: Vec<_> = assets.into_iter().flatten().collect();
	let min = 10u128;
	let listed: Vec<_> = assets.iter().map(|a| (*a, min)).collect();
	let others: Vec<_> = assets.iter().map(|a| (*a, acc(9), 777u128)).collect();
	let map = empty_chain(&[(acc(9), 777 * UNIT)], &listed, &others);
	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	// what one owns of an asset, and how much of it is held
	let owns: &[(u128, u128)] = if DEEP { &[(0, 0), (10, 0), (12_345, 345), (u64::MAX as u128 * 3, 0)] } else { &[(0, 0), (10, 0), (12_345, 345)] };
	let natives: &[(u128, u128)] = &[(0, 0), (ed, 0), (1_000 * UNIT, 0), (1_000 * UNIT, 400 * UNIT), (1 << 100, 1)];
	let asked = [acc(1), community_account(1), treasury()];
	let per = owns.len().pow(places.len() as u32) as usize;
	let tally = Tallier::default();
	par_for(per, 64, |i| {
		for who in &asked {
			for native in natives {
				let mut n = i;
				let purse: Vec<(u128, u128)> = assets.iter().map(|_| { let o = owns[n % owns.len()]; n /= owns.len(); o }).collect();
				ext::restore(&map);
				let set = guard(|| {
					if native.0 > 0 {
						<Balances as fungible::Mutate<Acc>>::mint_into(who, native.0).expect("minted");
						<Balances as ReservableCurrency<Acc>>::reserve(who, native.1).expect("reserved");
					}
					for (a, p) in assets.iter().zip(&purse) {
						if p.0 > 0 {
							<Assets as fungibles::Mutate<Acc>>::mint_into(*a, who, p.0).expect("minted");
						}
						if p.1 > 0 {
							let reason = RuntimeHoldReason::Payments(pallet_payments::HoldReason::TransferPayment);
							<Assets as fungibles::hold::Mutate<Acc>>::hold(*a, &reason, who, p.1).expect("held");
						}
					}
				});
				let case = || json!({"account": format!("{who:?}"), "native": format!("{native:?}"), "owned and held": format!("{purse:?}")});
				if let Err(e) = set {
					eprintln!("cannot set up: {e}: error of the check");
					std::process::exit(3);
				}
				let before = ext::snapshot();
				let told = guard(|| apis::served::query_account_balances(who.clone()).map_err(|e| format!("{e:?}")));
				let mut want: Vec<(Location, u128)> = vec![];
				if native.0 > 0 {
					want.push((Location::parent(), native.0 - native.1));
				}
				for (l, p) in places.iter().zip(&purse) {
					if p.0 > 0 {
						want.push((l.clone(), p.0 - p.1));
					}
				}
				want.sort();
				match told {
					Ok(Ok(xcm::VersionedAssets::V4(list))) => {
						let mut got: Vec<(Location, u128)> = vec![];
						for a in list.inner() {
							match a.fun {
								Fungible(n) => got.push((a.id.0.clone(), n)),
								_ => run.fail("something else than an amount is told", case()),
							}
						}
						got.sort();
						tally.hit(match want.len() { 0 => "nothing", 1 => "one asset", _ => "several assets" });
						run.check(got == want, "an account is said to own something else", || json!({"case": case(), "told": format!("{got:?}"), "want": format!("{want:?}")}));
					}
					e => run.fail("the balances of an account cannot be told", json!({"case": case(), "answer": format!("{e:?}")})),
				}
				run.check(ext::snapshot() == before, "asking changes the chain", case);
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}
	});
	// the next number of a transaction, and the time between blocks
	for used in 0..if DEEP { 4_000u32 } else { 400 } {
		ext::restore(&map);
		for who in &asked[..2] {
			for _ in 0..used {
				System::inc_account_nonce(who);
			}
			let told = guard(|| apis::served::account_nonce(who.clone()));
			run.check(told == Ok(used), "another transaction number is told", || json!({"account": format!("{who:?}"), "used": used, "told": format!("{told:?}")}));
			let told = guard(|| apis::served::account_nonce(acc(7)));
			run.check(told == Ok(0), "another transaction number is told", || json!({"account": "somebody else", "told": format!("{told:?}")}));
			run.states(1);
			run.transitions(2);
			run.traces(2);
		}
	}
	let slot = guard(|| apis::served::slot_duration().as_millis());
	let used = <<Runtime as pallet_aura::Config>::SlotDuration as Get<u64>>::get();
	run.check(slot == Ok(used), "nodes are told another time between blocks", || json!({"told": format!("{slot:?}"), "used": used}));
	run.info("outcomes", tally.json());
	run.sample(json!({"account": "acc(1)", "owned and held": format!("{:?}", owns), "places": format!("{places:?}")}));
	run.finish()
}

/// Deciding to vote with an asset, once or several times.
pub fn k30(run: Run) {
	use frame_support::traits::tokens::{DepositConsequence, Provenance};
	use fungibles::{roles::Inspect as _, Inspect as _};
	use pallet_communities::types::DecisionMethod;
	use parity_scale_codec::Encode;
	use std::collections::BTreeMap;
	type Com = pallet_communities::Call<Runtime>;
	#[derive(Clone, Debug)]
	struct Step {
		by: Who,
		of: u16,
		place: usize,
		min: u128,
	}
	// one that exists, three that do not
	let places: Vec<Location> = vec![
		Location::new(0, [PalletInstance(13), GeneralIndex(1)]),
		Location::new(0, [PalletInstance(13), GeneralIndex(2)]),
		Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984)]),
		Location::new(2, [GlobalConsensus(NetworkId::Polkadot)]),
	];
	let assets: Vec<FungibleAssetLocation> = places.iter().filter_map(virto_common::AsFungibleAssetLocation::convert).collect();
	run.check(assets.len() == places.len(), "an asset cannot be named", || json!({"assets": format!("{assets:?}")}));
	if run.failed() {
		run.finish();
	}
	let map = chain_with_communities();
	let owner = derived(b"modl", b"kv/cmtys", &[]);
	let mut steps = vec![];
	for of in [1u16, 2] {
		for place in 0..places.len() {
			for min in [0, 1, 10, u128::MAX] {
				for by in [Who::Community(1, 0), Who::Community(2, 0), Who::Signed(community_account(of)), Who::Signed(acc(1)), Who::Root, Who::Community(of, 3)] {
					steps.push(Step { by, of, place, min });
				}
			}
		}
	}
	let own: Vec<usize> = (0..steps.len()).filter(|i| steps[*i].by == Who::Community(steps[*i].of, 0)).collect();
	let mut plans: Vec<Vec<usize>> = vec![];
	for a in 0..steps.len() {
		plans.push(vec![a]);
		for b in 0..steps.len() {
			plans.push(vec![a, b]);
		}
	}
	for a in &own {
		for b in &own {
			for c in &own {
				plans.push(vec![*a, *b, *c]);
			}
		}
	}
	let tally = Tallier::default();
	let of_assets = |m: &ext::Map| -> BTreeMap<Vec<u8>, Vec<u8>> {
		let prefix = "Assets".encode();
		m.iter().filter(|(k, _)| k.starts_with(&prefix)).map(|(k, v)| (k.clone(), v.clone())).collect()
	};
	par_for(plans.len(), 64, |i| {
		ext::restore(&map);
		// what was made, with its smallest balance
		let mut made: BTreeMap<usize, u128> = BTreeMap::new();
		let mut history = vec![];
		for n in &plans[i] {
			let s = &steps[*n];
			history.push(format!("{s:?}"));
			let case = || json!({"history": history});
			let before = ext::snapshot();
			let r = guard(|| dispatch(Com::new_call_variant_set_decision_method(s.of, DecisionMethod::CommunityAsset(assets[s.place], s.min)), &s.by).is_ok());
			// a voice of a community, whole or in part, and its account may change its settings
			let may = matches!(&s.by, Who::Community(c, _) if *c == s.of) || s.by == Who::Signed(community_account(s.of));
			run.check(r == Ok(may), "settings of a community change hands", || json!({"case": case(), "answer": format!("{r:?}")}));
			let now = ext::snapshot();
			if r != Ok(true) {
				run.check(now == before, "a refused call leaves traces", case);
				tally.hit("refused");
				continue;
			}
			let fresh = s.place != 0 && !made.contains_key(&s.place) && s.min > 0;
			if !fresh {
				tally.hit("nothing made");
				run.check(of_assets(&now) == of_assets(&before), "assets change although nothing is to be made", case);
				continue;
			}
			tally.hit("made");
			made.insert(s.place, s.min);
			let (b, n) = (of_assets(&before), of_assets(&now));
			run.check(b.iter().all(|(k, v)| n.get(k) == Some(v)), "another asset changes", case);
			run.check(n.len() == b.len() + 1, "more or less than one asset is made", || json!({"case": case(), "records": [b.len(), n.len()]}));
		}
		let case = || json!({"history": history});
		for (p, a) in assets.iter().enumerate() {
			let want = if p == 0 { Some(1) } else { made.get(&p).copied() };
			run.check(Assets::asset_exists(*a) == want.is_some(), "an asset exists or not", || json!({"case": case(), "asset": format!("{a:?}")}));
			let Some(min) = want else { continue };
			run.check(Assets::minimum_balance(*a) == min, "another smallest balance", || json!({"case": case(), "asset": format!("{a:?}"), "found": Assets::minimum_balance(*a).to_string()}));
			if p == 0 {
				continue;
			}
			run.check(Assets::total_issuance(*a) == 0, "an asset comes with supply", case);
			let keepers = [Assets::owner(*a), Assets::issuer(*a), Assets::admin(*a), Assets::freezer(*a)];
			run.check(keepers.iter().all(|k| k.as_ref() == Some(&owner)), "an asset is in somebody's keeping", || json!({"case": case(), "keepers": format!("{keepers:?}")}));
			// it does not keep an account alive that has nothing else
			let give = |who: &Acc| Assets::can_deposit(*a, who, min, Provenance::Minted);
			run.check(give(&acc(0x77)) != DepositConsequence::Success, "an asset keeps accounts alive by itself", || json!({"case": case(), "asset": format!("{a:?}")}));
			run.check(give(&acc(1)) == DepositConsequence::Success, "an asset cannot be held", || json!({"case": case(), "asset": format!("{a:?}"), "answer": format!("{:?}", give(&acc(1)))}));
			run.traces(3);
		}
		run.states(1);
		run.transitions(plans[i].len() as u64);
		run.traces(1 + plans[i].len() as u64);
	});
	run.info("outcomes", tally.json());
	run.sample(json!({"plan": plans[plans.len() / 2].iter().map(|n| format!("{:?}", steps[*n])).collect::<Vec<_>>()}));
	if !run.failed() && ["made", "nothing made", "refused"].iter().any(|k| tally.get(k) == 0) {
		eprintln!("an outcome was never seen: error of the check");
		std::process::exit(3);
	}
	run.finish()
}
