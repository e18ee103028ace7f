//! K34: a signed transaction takes effect once, for its signer, on this chain, in its time, and is paid for.
use crate::world::*;
use frame_executive::{apply, Applied, Parts};
use frame_support::dispatch::{DispatchClass, GetDispatchInfo, Pays};
use frame_support::extension::{CheckIfFeeless, Era, Implied, Signed, Wish};
use frame_support::traits::{fungible, fungibles, Get};
use frame_support::weights::{Weight, WeightToFee};
use kreivo_runtime::{Assets, *};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use parity_scale_codec::Encode;
use shim_base::ext;
use shim_base::runtime::generic::ExtrinsicParts;
use sp_core::H256;
use sp_runtime::{BuildStorage, MultiAddress};

type Address = <Parts<Runtime> as ExtrinsicParts>::Address;
type OfWeight = <Runtime as pallet_transaction_payment::Config>::WeightToFee;
type OfLength = <Runtime as pallet_transaction_payment::Config>::LengthToFee;

const NOW: u32 = 100;
const OLDEST: u32 = 84;
const MIN: u128 = 10;
const GOOD: FungibleAssetLocation = FungibleAssetLocation::Here(1);
const POOR: FungibleAssetLocation = FungibleAssetLocation::Here(2);
const GONE: FungibleAssetLocation = FungibleAssetLocation::Here(3);
const TANK: Weight = Weight::from_parts(1 << 40, 1 << 22);
const START: u32 = 2;

fn hash_of(block: u64) -> H256 {
	H256::repeat_byte(block as u8 + 1)
}
fn known(block: u64, now: u32) -> bool {
	block == 0 || (block >= OLDEST as u64 && block < now as u64)
}
fn price(weight: Weight, len: usize) -> u128 {
	let base = <<Runtime as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().get(DispatchClass::Normal).base_extrinsic;
	let w = |w: Weight| OfWeight::weight_to_fee(&w);
	let l: u128 = OfLength::weight_to_fee(&Weight::from_parts(len as u64, 0));
	let (b, x): (u128, u128) = (w(base), w(weight));
	b + l + x
}
fn beliefs(spec: u32, tx: u32, genesis: u64, birth: u64) -> Implied {
	vec![("spec version", spec.encode()), ("transaction version", tx.encode()), ("genesis", hash_of(genesis).encode()), ("birth", hash_of(birth).encode())]
}
fn native(a: &Acc) -> u128 {
	<Balances as fungible::Inspect<Acc>>::total_balance(a)
}
fn good(a: &Acc) -> u128 {
	<Assets as fungibles::Inspect<Acc>>::total_balance(GOOD, a)
}
fn tank() -> Option<Weight> {
	use frame_support::traits::nonfungibles_v2::Inspect;
	<CommunityMemberships as Inspect<Acc>>::typed_system_attribute(&1, Some(&7), &fc_traits_gas_tank::TANK)
}
/// Everything a transaction may change: numbers, both currencies, all there is of each, and the tank.
type View = (Vec<(u32, u128, u128)>, u128, u128, Option<Weight>);
fn view(of: &[Acc]) -> View {
	(
		of.iter().map(|a| (System::account_nonce(a), native(a), good(a))).collect(),
		<Balances as fungible::Inspect<Acc>>::total_issuance(),
		<Assets as fungibles::Inspect<Acc>>::total_issuance(GOOD),
		tank(),
	)
}
fn author() -> Acc {
	acc(8)
}
fn payee() -> Acc {
	acc(9)
}
fn chain(of: &[Acc], scarce: u128) -> ext::Map {
	let t = RuntimeGenesisConfig {
		balances: BalancesConfig { balances: of.iter().map(|a| (a.clone(), if *a == acc(2) { scarce } else { 1000 * UNIT })).collect() },
		assets: AssetsConfig {
			assets: vec![(GOOD, acc(0xaa), true, MIN), (POOR, acc(0xaa), false, MIN)],
			metadata: vec![],
			accounts: of.iter().filter(|a| **a != acc(2) && **a != acc(4)).flat_map(|a| [(GOOD, a.clone(), 1 << 50), (POOR, a.clone(), 1 << 50)]).collect(),
			next_asset_id: None,
		},
		..Default::default()
	}
	.build_storage()
	.unwrap();
	sp_io::TestExternalities::new(t).execute_with(|| {
		System::set_block_number(1);
		collection(0, treasury());
		register(&Who::Root, 1, &acc(0x11)).expect("registers");
		join(1, 7, &acc(6));
		use frame_support::traits::nonfungibles_v2::Mutate;
		<CommunityMemberships as Mutate<Acc, pallet_nfts::ItemConfig>>::set_typed_attribute(&1, &7, &fc_traits_gas_tank::TANK, &TANK).expect("tank");
		for b in std::iter::once(0).chain(OLDEST..NOW) {
			frame_system::BlockHash::<Runtime>::insert(b, hash_of(b as u64));
		}
		for a in of {
			for _ in 0..START {
				System::inc_account_nonce(a);
			}
		}
		ext::put(&(pallet_pass::SESSIONS, acc(4)).encode(), acc(5).encode());
		ext::put(pallet_authorship::AUTHOR_KEY, author().encode());
		System::set_block_number(NOW);
		System::set_extrinsic_index(3);
		System::reset_events();
		ext::snapshot()
	})
}

pub fn k34(run: Run) {
	let version: sp_version::RuntimeVersion = <<Runtime as frame_system::Config>::Version as Get<_>>::get();
	let ed = <Balances as fungible::Inspect<Acc>>::minimum_balance();
	let of: Vec<Acc> = [1, 2, 4, 5, 6, 8, 9, 0].map(acc).into_iter().chain([treasury(), community_account(1)]).collect();
	let at = |a: &Acc| of.iter().position(|x| x == a).expect("known");
	let len = 120;
	let map = chain(&of, ed + price(Weight::zero(), len));
	let tally = Tallier::default();
	let calls_of = || -> Vec<(&'static str, RuntimeCall)> {
		let pass = |credential: &[u8]| pallet_pass::Call::<Runtime>::new_call_variant_authenticate([1; 32], credential.to_vec(), 5).into();
		vec![
			("remark", frame_system::Call::<Runtime>::remark_with_event { remark: vec![1] }.into()),
			("own call that succeeds", pallet_payments::Call::<Runtime>::new_call_variant_request_payment(MultiAddress::Id(payee()), GOOD, 50).into()),
			("own call that fails", pallet_communities::Call::<Runtime>::new_call_variant_unlock(0).into()),
			("transfer", pallet_balances::Call::<Runtime>::transfer_allow_death { dest: MultiAddress::Id(payee()), value: 5 }.into()),
			("free call", pass(pallet_pass::VALID)),
			("call that would be free", pass(b"forged")),
		]
	};
	// who is addressed, who that is, and who pays
	let senders: Vec<(Address, Option<Acc>)> = vec![
		(MultiAddress::Id(acc(1)), Some(acc(1))),
		(MultiAddress::Id(acc(2)), Some(acc(2))),
		(MultiAddress::Id(acc(0)), Some(acc(0))),
		(MultiAddress::Id(acc(4)), Some(acc(4))),
		(MultiAddress::Id(acc(6)), Some(acc(6))),
		(MultiAddress::Id(acc(0x55)), Some(acc(0x55))),
		(MultiAddress::Index(1u16.into()), Some(community_account(1))),
		(MultiAddress::Raw(acc(1).encode()), None),
		(MultiAddress::Address32([1; 32]), None),
	];
	let mut eras: Vec<(Era, u32)> = (0..6u32).map(|ago| (Era::Immortal, NOW - ago * 4)).collect();
	for (period, phases) in [(4, 0..4), (8, 2..6), (64, 34..37)] {
		for phase in phases {
			for ago in [0, 1, 3, 4, 7, 15, 40] {
				eras.push((Era::Mortal(period, phase), NOW - ago));
			}
		}
	}
	let assets: [Option<FungibleAssetLocation>; 4] = [None, Some(GOOD), Some(POOR), Some(GONE)];
	let busy: Vec<ext::Map> = [false, true]
		.into_iter()
		.map(|b| {
			ext::restore(&map);
			if b {
				let l = <<Runtime as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get();
				frame_system::BlockWeight::<Runtime>::put([l.get(DispatchClass::Normal).max_total.unwrap_or(l.max_block), Weight::zero(), Weight::zero()]);
			}
			ext::snapshot()
		})
		.collect();
	let n = senders.len() * eras.len();
	par_for(n, 1, |i| {
		let (address, who) = &senders[i % senders.len()];
		let (era, signed_at) = eras[i / senders.len()];
		for (by, wrong) in [acc(1), acc(2), who.clone().unwrap_or(acc(4))].into_iter().flat_map(|a| (0..8u8).map(move |w| (a.clone(), w))) {
			// a forged signature is refused whatever else there is
			let forged = who.as_ref() != Some(&by) || wrong > 0;
			let birth = era.birth(signed_at as u64);
			let signed = Signed { by: by.clone(), believing: beliefs(version.spec_version + (wrong & 1) as u32, version.transaction_version - (wrong >> 1 & 1) as u32, (wrong >> 2) as u64 * 85, birth) };
			for nonce in [START - 1, START, START + 1] {
				for tip in [0u128, 7] {
					if forged && tip > 0 {
						continue;
					}
					for (full, start) in busy.iter().enumerate() {
						for asset in &assets {
							for (name, call) in calls_of() {
								if *who == Some(acc(2)) && name == "transfer" {
									continue;
								}
								ext::restore(start);
								let info = call.get_dispatch_info();
								let free = name == "free call";
								let wish = Wish { nonce, era, tip, asset: asset.map(|a| a.encode()) };
								let before = view(&of);
								let case = || json!({"address": format!("{address:?}"), "signed by": enc(&by), "wrong beliefs": wrong, "era": format!("{era:?}"), "signed at": signed_at, "nonce": nonce, "tip": tip.to_string(), "fees in": format!("{asset:?}"), "call": name, "busy block": full == 1});
								let got = guard(|| apply::<Runtime>(address.clone(), call.clone(), &wish, &signed, len));
								let Ok(got) = got else {
									run.fail("a transaction panics", case());
									continue;
								};
								let after = view(&of);
								run.states(1);
								run.transitions(1);
								run.traces(1);
								let now_birth = era.birth(NOW as u64);
								let genuine = !forged && known(now_birth, NOW) && now_birth == birth;
								let mut want = before.clone();
								let accepted = (|| {
									let who = who.clone().filter(|w| genuine && *w != acc(0) && full == 0)?;
									if free {
										return Some(());
									}
									if who == acc(0x55) || nonce != START {
										return None;
									}
									want.0[at(&who)].0 += 1;
									let due = price(info.weight, len) + tip;
									let payer = if who == acc(4) { acc(5) } else { who.clone() };
									if payer == acc(6) {
										want.3 = Some(TANK.saturating_sub(info.weight));
									} else {
										match asset {
											None => {
												want.0[at(&payer)].1 = want.0[at(&payer)].1.checked_sub(due).filter(|left| *left >= ed)?;
												want.0[at(&treasury())].1 += due;
											}
											Some(a) if *a == GOOD => {
												let due = (due * MIN / ed).max(1);
												want.0[at(&payer)].2 = want.0[at(&payer)].2.checked_sub(due)?;
												want.0[at(&author())].2 += due;
											}
											_ => return None,
										}
									}
									if name == "transfer" {
										want.0[at(&who)].1 -= 5;
										want.0[at(&payee())].1 += 5;
									}
									Some(())
								})()
								.is_some();
								if !accepted {
									want = before.clone();
								}
								tally.hit(match (&got, forged) {
									(Ok(_), _) if free => "free",
									(Ok(_), _) => "accepted",
									(_, true) => "forged",
									_ => "refused",
								});
								run.check(got.is_ok() == accepted, if accepted { "a proper transaction is refused" } else { "an improper transaction is accepted" }, || json!({"case": case(), "outcome": format!("{:?}", got.as_ref().map(|a| a.result))}));
								run.check(got.is_ok() != accepted || after == want, "a transaction has another price, payer or effect", || json!({"case": case(), "before": format!("{before:?}"), "after": format!("{after:?}"), "expected": format!("{want:?}")}));
								if let Ok(Applied { result, .. }) = &got {
									run.check(result.is_ok() == matches!(name, "remark" | "own call that succeeds" | "transfer"), "a call has another outcome", case);
								}
							}
						}
					}
				}
			}
		}
	});
	// every call of the chain has its price, and nobody gets it for less
	let free = |c: &RuntimeCall| c.is_feeless(&RuntimeOrigin::signed(acc(1)));
	let wish = |nonce, era| Wish { nonce, era, tip: 0, asset: None };
	let own = ["Payments", "Communities", "CommunitiesManager"];
	for (pallet, name, call) in calls() {
		for size in [10, 120, 5_000] {
			ext::restore(&map);
			let info = call.get_dispatch_info();
			let before = (native(&acc(1)), native(&treasury()));
			let signed = Signed { by: acc(1), believing: beliefs(version.spec_version, version.transaction_version, 0, 0) };
			let case = || json!({"pallet": pallet, "call": name, "bytes": size});
			let Ok(got) = guard(|| apply::<Runtime>(MultiAddress::Id(acc(1)), call.clone(), &wish(START, Era::Immortal), &signed, size)) else { continue };
			run.states(1);
			run.transitions(1);
			run.traces(1);
			run.check(!free(&call), "a call is free of charge", case);
			let Ok(got) = got else {
				run.check(info.class == DispatchClass::Mandatory, "a call by somebody rich is refused", case);
				continue;
			};
			let paid = before.0 - native(&acc(1)).min(before.0);
			tally.hit("priced");
			if own.contains(&pallet.as_str()) {
				tally.hit("own call");
				run.check(paid == price(info.weight, size), "a call of the chain's own has another price", || json!({"case": case(), "paid": paid.to_string(), "price": price(info.weight, size).to_string(), "outcome": format!("{:?}", got.result)}));
			} else if info.pays_fee == Pays::Yes && got.post.pays_fee == Pays::Yes && got.result.is_err() {
				run.check(paid >= price(Weight::zero(), size), "a call has no price", || json!({"case": case(), "paid": paid.to_string()}));
			}
		}
	}
	// no transaction takes effect twice or out of turn, in any order and over several blocks
	#[derive(Clone, Copy, Debug, PartialEq)]
	enum Op {
		Tx(u8, u32, Era),
		Block,
	}
	let short = Era::Mortal(4, 3);
	let pool = [Op::Tx(1, START, Era::Immortal), Op::Tx(1, START + 1, Era::Immortal), Op::Tx(1, START, short), Op::Tx(1, START + 1, short), Op::Tx(4, START, Era::Immortal), Op::Tx(6, START, short), Op::Block];
	let length: u32 = if DEEP { 6 } else { 5 };
	let n = pool.len();
	par_for(n.pow(length), 64, |i| {
		ext::restore(&map);
		let word: Vec<Op> = (0..length).map(|p| pool[i / n.pow(p) % n]).collect();
		let mut next = std::collections::BTreeMap::new();
		let mut now = NOW;
		run.states(1);
		for (step, op) in word.iter().enumerate() {
			run.transitions(1);
			match op {
				Op::Block => {
					frame_system::BlockHash::<Runtime>::insert(now, hash_of(now as u64));
					now += 1;
					System::set_block_number(now);
				}
				Op::Tx(who, nonce, era) => {
					let birth = era.birth(NOW as u64);
					let signed = Signed { by: acc(*who), believing: beliefs(version.spec_version, version.transaction_version, 0, birth) };
					let call: RuntimeCall = frame_system::Call::<Runtime>::remark_with_event { remark: vec![*who] }.into();
					let due = next.entry(*who).or_insert(START);
					let want = *due == *nonce && era.birth(now as u64) == birth;
					if want {
						*due += 1;
					}
					let got = guard(|| apply::<Runtime>(MultiAddress::Id(acc(*who)), call, &wish(*nonce, *era), &signed, len).is_ok());
					let case = || json!({"history": format!("{word:?}"), "step": step});
					run.traces(1);
					tally.hit(if want { "in turn" } else { "again or out of turn" });
					run.check(got == Ok(want), if want { "a transaction in turn is refused" } else { "a transaction takes effect again or out of turn" }, case);
					run.check(System::account_nonce(acc(*who)) == *due, "transactions are counted otherwise", case);
				}
			}
		}
	});
	run.info("steps_by_kind", tally.json());
	run.sample(json!({"sender": enc(&acc(1)), "call": "remark", "bytes": len, "price": price(Weight::zero(), len).to_string()}));
	for k in ["free", "accepted", "forged", "refused", "priced", "own call", "in turn", "again or out of turn"] {
		if tally.get(k) == 0 && !run.failed() {
			eprintln!("'{k}' never happened: error of the check");
			std::process::exit(3);
		}
	}
	run.finish()
}
