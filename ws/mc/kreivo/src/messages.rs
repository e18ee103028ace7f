//! Cross-consensus configuration: who a location is, what it may do, which assets are believed.
use crate::world::*;
use frame_support::traits::{Contains, ContainsPair, EnsureOrigin};
use kreivo_runtime::{Runtime, RuntimeCall, RuntimeOrigin};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run};
use xcm::latest::prelude::*;
use xcm_executor::traits::{ConvertLocation, ConvertOrigin, Properties, ShouldExecute};
use xcm_executor::{Config as ExecutorConfig, Configured};

type PX = <Runtime as pallet_xcm::Config>::XcmExecutor;
type X = <PX as Configured>::Config;

/// The account a location stands for, by the rules written down for this chain.
pub fn account_of(l: &Location) -> Option<Acc> {
	match (l.parents, l.interior.as_slice()) {
		(1, []) => Some(derived(b"Pare", b"nt", &[])),
		(1, [Parachain(id)]) => Some(derived(b"sibl", &[], &id.to_le_bytes())),
		(0, [Plurality { id: BodyId::Index(i), .. }]) if *i <= 65535 => Some(community_account(*i as u16)),
		(0 | 1, [AccountId32 { network, id }]) if *network == None || *network == KUSAMA => Some((*id).into()),
		_ => None,
	}
}
fn all_locations(run: &Run) -> Vec<Location> {
	locations(if DEEP { 3 } else { 2 })
}
/// Two lists of the places the chain uses locations as accounts must agree.
pub fn k04(run: Run) {
	let ls = all_locations(&run);
	par_for(ls.len(), 512, |i| {
		let l = &ls[i];
		let r = guard(|| {
			(
				<<Runtime as pallet_xcm::Config>::SovereignAccountOf as ConvertLocation<Acc>>::convert_location(l),
				<X as ExecutorConfig>::OriginConverter::convert_origin(l.clone(), OriginKind::SovereignAccount).map(|o: RuntimeOrigin| signer(&o)).ok(),
			)
		});
		let want = account_of(l);
		match r {
			Ok((got, signed)) => {
				run.check(got == want, "location stands for another account", || json!({"location": format!("{l:?}"), "got": got.as_ref().map(enc), "want": want.as_ref().map(enc)}));
				run.check(signed == want.clone().map(Some), "sovereign calls are made by another account", || json!({"location": format!("{l:?}"), "got": format!("{signed:?}"), "want": want.as_ref().map(enc)}));
			}
			Err(e) => run.fail("converting a location panics", json!({"location": format!("{l:?}"), "panic": e})),
		}
		run.states(1);
		run.transitions(2);
		run.traces(1);
	});
	// every community number, on its own
	par_for(65536 + 64, 1024, |i| {
		let n = if i < 65536 { i as u32 } else { 65536u32.saturating_mul(1 << (i as u32 - 65536).min(16)).saturating_add(i as u32 & 7) };
		for part in [BodyPart::Voice, BodyPart::Members { count: 2 }] {
			let l = Location::new(0, [Plurality { id: BodyId::Index(n), part }]);
			let got = <<Runtime as pallet_xcm::Config>::SovereignAccountOf as ConvertLocation<Acc>>::convert_location(&l);
			let want = account_of(&l);
			run.check(got == want, "community stands for another account", || json!({"community": n, "got": got.as_ref().map(enc)}));
			run.states(1);
			run.transitions(1);
		}
	});
	run.sample(json!({"location": format!("{:?}", ls[ls.len() / 3]), "account": account_of(&ls[ls.len() / 3]).as_ref().map(enc)}));
	run.sample(json!({"location": "../Parachain(1000)", "account": account_of(&Location::new(1, [Parachain(1000)])).as_ref().map(enc)}));
	run.info("locations", json!(ls.len()));
	run.finish()
}

/// Locations of assets and origins: what the reserves are about, in all combinations.
fn asset_junctions() -> Vec<Junction> {
	vec![
		Parachain(1000),
		Parachain(1001),
		Parachain(2281),
		PalletInstance(50),
		PalletInstance(13),
		GeneralIndex(1984),
		GeneralIndex(u32::MAX as u128 + 1),
		GlobalConsensus(NetworkId::Polkadot),
		GlobalConsensus(NetworkId::Kusama),
		GlobalConsensus(NetworkId::Ethereum { chain_id: 1 }),
		AccountId32 { network: None, id: [1; 32] },
		Plurality { id: BodyId::Executive, part: BodyPart::Voice },
	]
}
pub fn k07(run: Run) {
	let assets = locations_over(&asset_junctions(), 0..=3, if DEEP { 4 } else { 3 });
	let mut origins = locations_over(&asset_junctions(), 0..=3, if DEEP { 2 } else { 1 });
	origins.push(Location::new(1, [Parachain(1000), PalletInstance(50)]));
	let hub = Location::new(1, [Parachain(1000)]);
	par_for(assets.len(), 64, |i| {
		let id = &assets[i];
		let a = Asset { id: AssetId(id.clone()), fun: Fungible(1) };
		let starts = |parents: u8, js: &[Junction]| id.parents == parents && id.interior.as_slice().starts_with(js);
		let mut own = vec![id.clone()];
		own.extend(origins.iter().cloned());
		for o in &own {
			let want = id == o || (*o == hub && (starts(1, &[Parachain(1000)]) || starts(2, &[GlobalConsensus(NetworkId::Polkadot)])));
			let got = guard(|| (<<X as ExecutorConfig>::IsReserve as ContainsPair<Asset, Location>>::contains(&a, o), <<X as ExecutorConfig>::IsTeleporter as ContainsPair<Asset, Location>>::contains(&a, o)));
			match got {
				Ok((reserve, teleport)) => {
					run.check(reserve == want, if want { "an asset is refused from its reserve" } else { "an asset is accepted from a chain that is not its reserve" }, || {
						json!({"asset": format!("{id:?}"), "origin": format!("{o:?}")})
					});
					run.check(!teleport, "an asset may be teleported", || json!({"asset": format!("{id:?}"), "origin": format!("{o:?}")}));
				}
				Err(e) => run.fail("deciding about a reserve panics", json!({"asset": format!("{id:?}"), "origin": format!("{o:?}"), "panic": e})),
			}
		}
		run.states(own.len() as u64);
		run.transitions(2 * own.len() as u64);
		run.traces(own.len() as u64);
	});
	run.sample(json!({"asset": "../Parachain(1000)/PalletInstance(50)/GeneralIndex(1984)", "origin": format!("{hub:?}"), "reserve": true}));
	run.sample(json!({"asset": format!("{:?}", assets[assets.len() / 2]), "origin": format!("{:?}", origins[3])}));
	run.finish()
}

pub fn k13(run: Run) {
	let who = everybody();
	let map = chain_with_communities();
	par_for(who.len(), 16, |i| {
		let w = &who[i];
		shim_base::ext::restore(&map);
		let plurality = |id: u16, part| Location::new(0, [Plurality { id: BodyId::Index(id as u32), part }]);
		let community = match w {
			Who::Community(c, 0) => Some(plurality(*c, BodyPart::Voice)),
			Who::Community(c, 1) => Some(plurality(*c, BodyPart::Members { count: 1 })),
			Who::Community(c, 2) => Some(plurality(*c, BodyPart::Members { count: 3 })),
			Who::Community(c, 3) => Some(plurality(*c, BodyPart::Fraction { nom: 250_000, denom: 1_000_000 })),
			_ => None,
		};
		let send = match w {
			Who::Root => Some(Location::here()),
			Who::Signed(a) => community_of(a).map(|c| plurality(c, BodyPart::Voice)),
			_ => community.clone(),
		};
		let execute = match w {
			Who::Root => Some(Location::here()),
			Who::Signed(a) => Some(Location::new(0, [AccountId32 { network: KUSAMA, id: a.clone().into() }])),
			_ => community.clone(),
		};
		let got = guard(|| {
			(
				<<Runtime as pallet_xcm::Config>::SendXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin()).ok(),
				<<Runtime as pallet_xcm::Config>::ExecuteXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin()).ok(),
			)
		});
		match got {
			Ok((s, e)) => {
				run.check(s == send, "messages are sent as somebody else", || json!({"who": w.name(), "got": format!("{s:?}"), "want": format!("{send:?}")}));
				run.check(e == execute, "messages are executed as somebody else", || json!({"who": w.name(), "got": format!("{e:?}"), "want": format!("{execute:?}")}));
				// speaking as a community elsewhere and being heard back here is the same party
				if let Some(l) = s.filter(|l| !l.is_here()) {
					let back = <<Runtime as pallet_xcm::Config>::SovereignAccountOf as ConvertLocation<Acc>>::convert_location(&l);
					let own = match w {
						Who::Signed(a) => Some(a.clone()),
						Who::Community(c, _) => Some(community_account(*c)),
						_ => None,
					};
					run.check(back == own, "the identity sent is not the sender's own", || json!({"who": w.name(), "location": format!("{l:?}"), "account": back.as_ref().map(enc)}));
				}
			}
			Err(e) => run.fail("deciding who sends panics", json!({"who": w.name(), "panic": e})),
		}
		run.states(1);
		run.transitions(2);
		run.traces(1);
	});
	// all the communities there can be
	par_for(65536, 1024, |c| {
		let c = c as u16;
		let want = Some(Location::new(0, [Plurality { id: BodyId::Index(c as u32), part: BodyPart::Voice }]));
		for w in [Who::Community(c, 0), Who::Signed(community_account(c))] {
			let got = <<Runtime as pallet_xcm::Config>::SendXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin()).ok();
			run.check(got == want, "messages are sent as somebody else", || json!({"who": w.name(), "got": format!("{got:?}")}));
		}
		run.states(2);
		run.transitions(2);
	});
	run.sample(json!({"who": who[7].name(), "of": who.len()}));
	run.sample(json!({"who": "account of community 1", "sends_as": "Plurality(Index 1, Voice)"}));
	run.finish()
}

type Msg = Vec<Instruction<RuntimeCall>>;
/// Instructions the barrier may look at.
fn instruction(n: u8) -> Instruction<RuntimeCall> {
	let one: Assets = vec![Asset { id: AssetId(Location::parent()), fun: Fungible(1000) }].into();
	let fees = Asset { id: AssetId(Location::parent()), fun: Fungible(1000) };
	match n {
		0 => WithdrawAsset(one),
		1 => ReserveAssetDeposited(one),
		2 => ReceiveTeleportedAsset(one),
		3 => ClearOrigin,
		4 => BuyExecution { fees, weight_limit: Unlimited },
		5 => BuyExecution { fees, weight_limit: Limited(Weight::from_parts(1, 1)) },
		6 => UnpaidExecution { weight_limit: Unlimited, check_origin: None },
		7 => UnpaidExecution { weight_limit: Limited(Weight::from_parts(1, 1)), check_origin: None },
		8 => DescendOrigin([Plurality { id: BodyId::Executive, part: BodyPart::Voice }].into()),
		9 => DescendOrigin([Parachain(1000)].into()),
		10 => DescendOrigin([AccountId32 { network: None, id: [1; 32] }].into()),
		11 => UniversalOrigin(GlobalConsensus(NetworkId::Kusama)),
		12 => UniversalOrigin(GlobalConsensus(NetworkId::Polkadot)),
		13 => DescendOrigin([Plurality { id: BodyId::Executive, part: BodyPart::Fraction { nom: 1, denom: 2 } }].into()),
		14 => BuyExecution { fees, weight_limit: Limited(Weight::from_parts(1_000, 1_000)) },
		15 => UnpaidExecution { weight_limit: Limited(Weight::from_parts(1_000, 2_000)), check_origin: None },
		_ => DescendOrigin([Plurality { id: BodyId::Technical, part: BodyPart::Voice }].into()),
	}
}
const INSTRUCTIONS: usize = 17;
pub fn k15(run: Run) {
	let need = Weight::from_parts(1_000, 1_000);
	let mut origins = vec![Location::here(), Location::parent(), Location::new(2, Junctions::Here)];
	for j in junctions() {
		origins.push(Location::new(1, [j]));
		origins.push(Location::new(0, [j]));
	}
	origins.push(Location::new(2, [GlobalConsensus(NetworkId::Polkadot)]));
	origins.push(Location::new(1, [Parachain(1000), Plurality { id: BodyId::Executive, part: BodyPart::Voice }]));
	let depth = if run.thorough() { 6 } else { 5 };
	let free = |l: &Location| match (l.parents, l.interior.as_slice()) {
		(1, []) => true,
		(1, [Plurality { id: BodyId::Executive, .. }]) => true,
		_ => false,
	};
	// the place of the chain in the world, needed to place a universal origin
	let total: usize = (0..=depth).map(|d| INSTRUCTIONS.pow(d as u32)).sum();
	// lengthy words over few origins, short words over all
	let few: Vec<Location> = vec![Location::parent(), Location::new(1, [Parachain(1000)]), Location::here(), Location::new(1, [Plurality { id: BodyId::Executive, part: BodyPart::Voice }])];
	let accepted = mc_core::Tallier::default();
	par_for(total, 512, |mut i| {
		let mut len = 0;
		while i >= INSTRUCTIONS.pow(len as u32) {
			i -= INSTRUCTIONS.pow(len as u32);
			len += 1;
		}
		let word: Vec<u8> = mc_core::nth_word(&(0..INSTRUCTIONS as u8).collect::<Vec<_>>(), len, i);
		for o in if len <= 2 { &origins } else { &few } {
			for credit in [Weight::zero(), Weight::from_parts(999, 1_000), need] {
				let mut msg: Msg = word.iter().map(|n| instruction(*n)).collect();
				let mut props = Properties { weight_credit: credit, message_id: None };
				let r = guard(|| <X as ExecutorConfig>::Barrier::should_execute(o, &mut msg, need, &mut props).is_ok());
				let case = || json!({"origin": format!("{o:?}"), "message": format!("{:?}", word.iter().map(|n| instruction(*n)).collect::<Msg>()), "credit": format!("{credit:?}")});
				run.states(1);
				run.transitions(1);
				run.traces(1);
				match r {
					Err(e) => run.fail("the barrier panics", json!({"case": case(), "panic": e})),
					Ok(got) => {
						if credit == need {
							run.check(got && props.weight_credit == Weight::zero(), "a message with enough credit is refused", case);
							accepted.hit("credit");
							continue;
						}
						// where the message says it comes from
						let mut from = Some(o.clone());
						let mut rest = &word[..];
						while let Some(n) = rest.first().filter(|_| word.len() - rest.len() < 8) {
							match instruction(*n) {
								DescendOrigin(js) => {
									for j in js.iter() {
										from = from.and_then(|l| l.pushed_with_interior(*j).ok());
									}
								}
								// a global origin is never the relay chain's own body here
								UniversalOrigin(_) => from = Some(Location::new(9, Junctions::Here)),
								_ => break,
							}
							rest = &rest[1..];
						}
						let unpaid = matches!(rest.first(), Some(6 | 15));
						let paid = matches!(rest.first(), Some(0..=2)) && {
							let after: Vec<u8> = rest[1..].iter().copied().skip_while(|n| *n == 3).collect();
							matches!(after.first(), Some(4 | 14)) && rest.len() - after.len() < 5
						};
						// claiming to be the relay chain's consensus itself is left open
						if unpaid && word[..word.len() - rest.len()].contains(&11) {
							continue;
						}
						let want = paid || (unpaid && from.as_ref().map_or(false, free));
						if got {
							accepted.hit(if paid { "paid" } else { "unpaid" });
						}
						run.check(got == want, if want { "a message that may execute is refused" } else { "a message executes without pay" }, case);
					}
				}
			}
		}
	});
	run.info("accepted", accepted.json());
	run.sample(json!({"origin": "parent", "message": "UnpaidExecution", "executes": true}));
	run.sample(json!({"origin": "sibling 1000", "message": "UnpaidExecution", "executes": false}));
	run.finish()
}

pub fn k16(run: Run) {
	let ls = all_locations(&run);
	let kinds = [OriginKind::Native, OriginKind::SovereignAccount, OriginKind::Superuser, OriginKind::Xcm];
	par_for(ls.len(), 512, |i| {
		let l = &ls[i];
		for kind in kinds {
			let want = match (kind, l.parents, l.interior.as_slice()) {
				(OriginKind::SovereignAccount, _, _) => account_of(l).map(Who::Signed),
				(OriginKind::Native, 1, []) => Some(Who::Relay),
				(OriginKind::Native, 1, [Parachain(n)]) => Some(Who::Sibling(*n)),
				(OriginKind::Native, 0, [AccountId32 { network, id }]) if *network == None || *network == KUSAMA => Some(Who::Signed((*id).into())),
				(OriginKind::Xcm, _, _) => Some(Who::Xcm(l.clone())),
				_ => None,
			};
			let got = guard(|| {
				let o: Result<RuntimeOrigin, _> = <X as ExecutorConfig>::OriginConverter::convert_origin(l.clone(), kind);
				o.map(|o| o.caller).ok()
			});
			match got {
				Ok(got) => {
					let want = want.map(|w| w.caller());
					run.check(got == want, "a location acts as somebody else", || json!({"location": format!("{l:?}"), "kind": format!("{kind:?}"), "got": format!("{got:?}"), "want": format!("{want:?}")}));
				}
				Err(e) => run.fail("converting an origin panics", json!({"location": format!("{l:?}"), "kind": format!("{kind:?}"), "panic": e})),
			}
		}
		run.states(4);
		run.transitions(4);
		run.traces(4);
	});
	let calls = calls();
	// nothing can be executed locally, teleported or impersonated by message
	for l in ls.iter().take(5_000) {
		for k in ls.iter().take(60) {
			let alias = <<X as ExecutorConfig>::Aliasers as ContainsPair<Location, Location>>::contains(l, k);
			run.check(!alias, "a location may pass as another", || json!({"origin": format!("{l:?}"), "target": format!("{k:?}")}));
			run.transitions(1);
		}
	}
	for (_, _, c) in &calls {
		let x: Xcm<RuntimeCall> = Xcm(vec![Transact { origin_kind: OriginKind::Superuser, require_weight_at_most: Weight::from_parts(1, 1), call: parity_scale_codec::Encode::encode(c).into() }]);
		for l in [Location::here(), Location::parent(), Location::new(1, [Parachain(1000)]), Location::new(0, [AccountId32 { network: None, id: [1; 32] }])] {
			let p = (l.clone(), x.clone());
			run.check(!<<Runtime as pallet_xcm::Config>::XcmExecuteFilter as Contains<(Location, Xcm<RuntimeCall>)>>::contains(&p), "messages can be executed by signing them", || json!({"who": format!("{l:?}")}));
			let t = (l.clone(), vec![Asset { id: AssetId(Location::parent()), fun: Fungible(1) }]);
			run.check(!<<Runtime as pallet_xcm::Config>::XcmTeleportFilter as Contains<(Location, Vec<Asset>)>>::contains(&t), "assets can be teleported", || json!({"who": format!("{l:?}")}));
			run.states(1);
			run.transitions(2);
		}
	}
	run.sample(json!({"location": "parent", "kind": "Superuser", "acts_as": null}));
	run.sample(json!({"location": "parent", "kind": "Native", "acts_as": "relay origin"}));
	run.finish()
}
