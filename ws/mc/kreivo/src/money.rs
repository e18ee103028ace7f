//! Fees, ids of payments, addresses, challenges and the ledgers behind foreign assets.
use crate::messages::account_of;
use crate::world::*;
use fc_traits_authn::{Challenged, Challenger};
use frame_support::traits::{fungible, fungibles, OnUnbalanced, PalletInfoAccess};
use frame_support::weights::{Weight, WeightToFee};
use kreivo_runtime::{Assets, Balances, FungibleAssetLocation, Payments, Runtime, RuntimeHoldReason, System};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use pallet_payments::{FeeHandler, PaymentId as _};
use parity_scale_codec::Encode;
use shim_base::ext;
use sp_runtime::traits::StaticLookup;
use sp_runtime::MultiAddress;
use virto_common::PaymentId;
use xcm::latest::prelude::{Asset, AssetId, Fungible, Junction, Location, NonFungible};
use xcm_builder::PaidIn;
use xcm_executor::traits::TransactAsset;
use xcm_executor::{Config as ExecutorConfig, Configured};

type X = <<Runtime as pallet_xcm::Config>::XcmExecutor as Configured>::Config;

fn percent(p: u128, amount: u128) -> u128 {
	amount / 100 * p + amount % 100 * p / 100
}
fn amounts(thorough: bool) -> Vec<u128> {
	let mut v: Vec<u128> = (0..=if thorough { 2_000 } else { 310 }).collect();
	for k in 7..128 {
		for d in [-1i32, 0, 1] {
			v.push((1u128 << k).wrapping_add_signed(d as i128));
		}
	}
	for k in 3..38 {
		v.push(10u128.pow(k) - 1);
		v.push(10u128.pow(k));
		v.push(10u128.pow(k) / 3);
	}
	v.extend([u128::MAX, u128::MAX - 1, u128::MAX / 3, u128::MAX / 100 * 99]);
	v.sort();
	v.dedup();
	v
}
const MINS: [u128; 5] = [1, 2, 3, 100, 1_000_000];
fn asset(i: usize) -> FungibleAssetLocation {
	FungibleAssetLocation::Here(i as u32 + 1)
}
pub fn k01(run: Run) {
	type H = <Runtime as pallet_payments::Config>::FeeHandler;
	let accounts = accounts();
	let amounts = amounts(DEEP);
	let assets: Vec<_> = MINS.iter().enumerate().map(|(i, m)| (asset(i), *m)).collect();
	let map = empty_chain(&[(treasury(), 1000 * UNIT)], &assets, &[]);
	let expected = |who: &Acc, p: u128, min: u128, amount: u128| -> Vec<(Acc, u128, bool)> {
		match community_of(who) {
			Some(_) => vec![],
			None => vec![(treasury(), percent(p, amount).max(min), true)],
		}
	};
	// a fee depends on amount and minimum for a few parties, and on the parties for a few amounts
	let few: Vec<usize> = (0..accounts.len()).filter(|i| i % 9 == 0 || community_of(&accounts[*i]).is_some()).take(if DEEP { 20 } else { 6 }).collect();
	let sharp = [0u128, 1, 33, 34, 99, 100, 101, 10_000, UNIT, u128::MAX];
	let one = |i: usize, j: usize, amounts: &[u128], remarks: &[Option<&[u8]>]| {
		let (s, b) = (&accounts[i], &accounts[j]);
		for (k, (a, min)) in assets.iter().enumerate() {
			let _ = k;
			for amount in amounts {
				for remark in remarks {
					let got = guard(|| <H as FeeHandler<Runtime>>::apply_fees(a, s, b, amount, *remark));
					let case = || json!({"asset_minimum": min, "sender": enc(s), "beneficiary": enc(b), "amount": amount.to_string()});
					match got {
						Ok(f) => {
							run.check(f.sender_pays.to_vec() == expected(s, 1, *min, *amount), "the sender is charged otherwise", || json!({"case": case(), "got": format!("{:?}", f.sender_pays)}));
							run.check(f.beneficiary_pays.to_vec() == expected(b, 3, *min, *amount), "the beneficiary is charged otherwise", || json!({"case": case(), "got": format!("{:?}", f.beneficiary_pays)}));
						}
						Err(e) => run.fail("deciding about fees panics", json!({"case": case(), "panic": e})),
					}
					run.states(1);
					run.transitions(1);
					run.traces(1);
				}
			}
		}
	};
	par_for(accounts.len(), 4, |i| {
		ext::restore(&map);
		for j in 0..accounts.len() {
			one(i, j, &sharp, &[None]);
		}
		if few.contains(&i) {
			for j in &few {
				one(i, *j, &amounts, &[None, Some(b""), Some(b"a remark that says nothing at all")]);
			}
		}
	});
	// all communities there can be
	par_for(65536, 512, |c| {
		if ext::get(b"here").is_none() {
			ext::restore(&map);
			ext::put(b"here", vec![1]);
		}
		let c = community_account(c as u16);
		let f = <H as FeeHandler<Runtime>>::apply_fees(&asset(0), &c, &acc(1), &1000, None);
		run.check(f.sender_pays.is_empty() && f.beneficiary_pays.to_vec() == expected(&acc(1), 3, 1, 1000), "a community pays", || json!({"community": enc(&c)}));
		let f = <H as FeeHandler<Runtime>>::apply_fees(&asset(0), &acc(1), &c, &1000, None);
		run.check(f.beneficiary_pays.is_empty() && f.sender_pays.to_vec() == expected(&acc(1), 1, 1, 1000), "a community pays", || json!({"community": enc(&c)}));
		run.states(2);
		run.transitions(2);
	});
	run.sample(json!({"sender": enc(&acc(1)), "beneficiary": enc(&acc(2)), "amount": 1000, "fees": [10, 30]}));
	run.sample(json!({"sender": enc(&community_account(1)), "beneficiary": enc(&acc(2)), "amount": 1000, "fees": [null, 30]}));
	run.finish()
}

/// Payments on the runtime as it is configured, from the first step to the last.
pub fn k18(run: Run) {
	#[derive(Clone, Copy, Debug, PartialEq)]
	enum End {
		Release,
		Cancel,
		RefundAfter(u32),
		Dispute(u8),
		AcceptRequest,
		CancelRequest,
	}
	/// Plenty of money, no more than it takes, or all that can be spent is spent once the payment is disputed.
	#[derive(Clone, Copy, Debug, PartialEq)]
	enum Purse {
		Full,
		Poor,
		Spent,
	}
	let parties: Vec<(Who, Acc)> = vec![(Who::Signed(acc(1)), acc(1)), (Who::Signed(acc(2)), acc(2)), (Who::Signed(community_account(1)), community_account(1)), (Who::Community(2, 0), community_account(2))];
	let held: Vec<_> = MINS.iter().enumerate().flat_map(|(i, _)| parties.iter().map(move |p| (asset(i), p.1.clone(), 1_000_000_000_000u128)).collect::<Vec<_>>()).collect();
	let assets: Vec<_> = MINS.iter().enumerate().map(|(i, m)| (asset(i), *m)).collect();
	let mut native: Vec<_> = parties.iter().map(|p| (p.1.clone(), 1000 * UNIT)).collect();
	native.push((treasury(), 1000 * UNIT));
	let map = empty_chain(&native, &assets, &held);
	let amounts: Vec<u128> = if DEEP { (1..=400).chain([999, 1_000, 1_001, 99_999, 100_000, 12_345_678, 1_000_000_000]).collect() } else { vec![1, 9, 10, 33, 34, 99, 100, 101, 199, 200, 1_000, 9_999, 12_345_678, 1_000_000_000] };
	let mut ends = vec![End::Release, End::Cancel, End::AcceptRequest, End::CancelRequest];
	ends.extend([0, 1, 14_399, 14_400, 14_401].map(End::RefundAfter));
	ends.extend([0, 1, 50, 99, 100].iter().flat_map(|p| [End::Dispute(*p), End::Dispute(*p + 128)]));
	let mut cases = vec![];
	for s in 0..parties.len() {
		for b in 0..parties.len() {
			if s == b {
				continue;
			}
			for a in 0..MINS.len() {
				for (n, amount) in amounts.iter().enumerate() {
					for e in &ends {
						cases.push((s, b, a, *amount, *e, Purse::Full));
						if n % 7 == 0 || *amount >= 999 {
							cases.push((s, b, a, *amount, *e, Purse::Poor));
							if matches!(e, End::Dispute(_)) {
								cases.push((s, b, a, *amount, *e, Purse::Spent));
							}
						}
					}
				}
			}
		}
	}
	let tally = Tallier::default();
	use fungibles::{hold::Inspect as _, Inspect as _};
	par_for(cases.len(), 64, |i| {
		let (s, b, a, amount, end, purse) = cases[i];
		let poor = purse == Purse::Poor;
		ext::restore(&map);
		let ((sw, sa), (bw, ba)) = (&parties[s], &parties[b]);
		let id_of = |n: u32, to: &Acc| PaymentId::from((System::block_number(), n, to.encode().as_slice()));
		let (asset, min) = (asset(a), MINS[a]);
		let all = |who: &Acc| (Assets::total_balance(asset, who), Assets::total_balance_on_hold(asset, who));
		let case = || json!({"sender": sw.name(), "beneficiary": bw.name(), "asset_minimum": min, "amount": amount.to_string(), "end": format!("{end:?}"), "purses": format!("{purse:?}")});
		System::set_extrinsic_index(3);
		// who does not sign with an account receives, but cannot act as the one receiving
		let b_acts = matches!(bw, Who::Signed(_));
		let fee = |who: &Acc, p| if community_of(who).is_some() { 0 } else { percent(p, amount).max(min) };
		let (fs, fb, incentive) = (fee(sa, 1), fee(ba, 3), amount / 10);
		if poor {
			// the sender has just what it takes, the beneficiary nothing but what a dispute takes
			let asked = matches!(end, End::AcceptRequest | End::CancelRequest);
			let keep = amount + fs + if asked { 0 } else { incentive + min };
			for (who, keep) in [(sa, keep), (ba, if matches!(end, End::Dispute(_)) { incentive + fb.max(min) } else { 0 })] {
				let rest = Assets::total_balance(asset, who) - keep;
				<Assets as fungibles::Mutate<Acc>>::transfer(asset, who, &acc(0xbb), rest, frame_support::traits::tokens::Preservation::Expendable).expect("gives it away");
			}
		}
		let mut before = (all(sa), all(ba), all(&treasury()), Assets::total_issuance(asset));
		const OPEN: (i128, i128, i128) = (i128::MAX, 0, 0);
		let settled = ((amount + fs) as i128, amount as i128 - fb as i128, (fs + fb) as i128);
		let r = guard(|| -> Result<(i128, i128, i128), String> {
			type C = pallet_payments::Call<Runtime>;
			let asked = matches!(end, End::AcceptRequest | End::CancelRequest);
			let id = id_of(3, ba);
			if asked {
				if dispatch(C::new_call_variant_request_payment(MultiAddress::Id(sa.clone()), asset, amount), bw).is_err() {
					return if b_acts { Err("a request is refused".into()) } else { Ok((0, 0, 0)) };
				}
				if (all(sa), all(ba)) != (before.0, before.1) {
					return Err("asking moves money".into());
				}
				if end == End::CancelRequest {
					// allowed or not, it is worth nothing
					let _ = dispatch(C::new_call_variant_cancel(id), bw);
					return Ok((0, 0, 0));
				}
				return match dispatch(C::new_call_variant_accept_and_pay(id), sw) {
					Ok(()) => Ok(settled),
					Err(e) if amount <= fb || amount < min || (poor && amount < fb + min) => {
						let _ = e;
						Ok((0, 0, 0))
					}
					Err(e) => Err(format!("a request cannot be paid: {e:?}")),
				};
			}
			match dispatch(C::new_call_variant_pay(MultiAddress::Id(ba.clone()), asset, amount, None), sw) {
				Ok(()) => {}
				Err(_) if amount < min => return Ok((0, 0, 0)),
				Err(e) => return Err(format!("cannot pay: {e:?}")),
			}
			// in the middle: fee and incentive held on one side, the amount on the other
			let now = (all(sa), all(ba));
			if now.0 != (before.0 .0 - amount, before.0 .1 + fs + incentive) || now.1 != (before.1 .0 + amount, before.1 .1 + amount) {
				return Err(format!("held otherwise: {:?} then {now:?}", (before.0, before.1)));
			}
			match end {
				End::Release => match dispatch(C::new_call_variant_release(id), sw) {
					Ok(()) => Ok(settled),
					// the fee is more than the beneficiary has
					Err(_) if poor && amount < fb + min => Ok(OPEN),
					Err(e) => Err(format!("cannot release: {e:?}")),
				},
				End::Cancel => match dispatch(C::new_call_variant_cancel(id), bw) {
					Ok(()) => Ok((0, 0, 0)),
					Err(_) if !b_acts => Ok(OPEN),
					Err(e) => Err(format!("cannot cancel: {e:?}")),
				},
				End::RefundAfter(n) => {
					dispatch(C::new_call_variant_request_refund(id), sw).map_err(|e| format!("cannot ask for a refund: {e:?}"))?;
					run_to(1 + n);
					let back = all(sa) == before.0;
					if back != (n >= 14_400) {
						return Err(format!("{n} blocks later the refund is {}", if back { "done" } else { "not done" }));
					}
					Ok(if back { (0, 0, 0) } else { OPEN })
				}
				End::Dispute(how) => {
					dispatch(C::new_call_variant_request_refund(id), sw).map_err(|e| format!("cannot ask for a refund: {e:?}"))?;
					match dispatch(C::new_call_variant_dispute_refund(id), bw) {
						Ok(()) => {}
						Err(_) if !b_acts => return Ok(OPEN),
						Err(e) => return Err(format!("cannot dispute: {e:?}")),
					}
					run_to(20_000);
					if all(sa) == before.0 {
						return Err("refunded although disputed".into());
					}
					if purse == Purse::Spent {
						for (who, n) in [(sa, &mut before.0 .0), (ba, &mut before.1 .0)] {
							let free = Assets::reducible_balance(asset, who, frame_support::traits::tokens::Preservation::Expendable, frame_support::traits::tokens::Fortitude::Polite);
							let total = Assets::total_balance(asset, who);
							<Assets as fungibles::Mutate<Acc>>::transfer(asset, who, &acc(0xbb), free, frame_support::traits::tokens::Preservation::Expendable).expect("spends it");
							*n -= total - Assets::total_balance(asset, who);
						}
					}
					for w in [sw, bw, &Who::Killer] {
						let verdict = pallet_payments::DisputeResult { in_favor_of: pallet_payments::Role::Sender, percent_beneficiary: sp_runtime::Percent::from_percent(0) };
						if dispatch(C::new_call_variant_resolve_dispute(id, verdict), w).is_ok() {
							return Err(format!("{} decides the dispute", w.name()));
						}
					}
					let p = sp_runtime::Percent::from_percent(how & 127);
					let in_favor_of = if how >= 128 { pallet_payments::Role::Beneficiary } else { pallet_payments::Role::Sender };
					let r = dispatch(C::new_call_variant_resolve_dispute(id, pallet_payments::DisputeResult { in_favor_of, percent_beneficiary: p }), &Who::Root);
					// the favoured party gets its part, the other one the rest and loses the incentive; fees are due anyway
					let part = amount * (how & 127) as u128 / 100;
					let (back, lost) = if how >= 128 { (amount - part, (incentive, 0)) } else { (part, (0, incentive)) };
					// what each is left with at each step: an account has the minimum, or is gone after the last
					let lives = |n: u128, or_gone: bool| n >= min || (or_gone && n == 0);
					let has = before.1 .0 + amount;
					let can = has >= back + fb + lost.1 && (fb == 0 || lives(has - fb, false)) && lives(has - fb - lost.1, back == 0) && lives(has - fb - lost.1 - back, true);
					let has = before.0 .0 - amount;
					let can = can && has >= min.max(fs + lost.0) && (fs == 0 || lives(has - fs, false)) && lives(has - fs - lost.0, back >= min);
					// an account that has none of the asset takes no less than the minimum
					let taken = fs + fb > 0 || incentive >= min;
					match r {
						Ok(()) if can => Ok(((amount + fs + lost.0) as i128 - back as i128, amount as i128 - (back + fb + lost.1) as i128, (fs + fb + incentive) as i128)),
						Err(e) if can && taken => Err(format!("cannot resolve: {e:?}")),
						_ => Ok(OPEN),
					}
				}
				_ => Ok((0, 0, 0)),
			}
		});
		let now = (all(sa), all(ba), all(&treasury()), Assets::total_issuance(asset));
		match r {
			Err(e) => run.fail("a payment panics", json!({"case": case(), "panic": e})),
			Ok(Err(e)) => run.fail("a payment goes wrong", json!({"case": case(), "what": e})),
			Ok(Ok((i128::MAX, _, _))) => tally.hit("open or split"),
			Ok(Ok((from, to, fees))) => {
				tally.hit(if from == 0 { "nothing moved" } else { "settled" });
				let moved = |n: u128, d: i128| (n as i128 + d) as u128;
				let want = ((moved(before.0 .0, -from), before.0 .1), (moved(before.1 .0, to), before.1 .1), moved(before.2 .0, fees));
				run.check((now.0, now.1, now.2 .0) == want, "the money ends up elsewhere", || json!({"case": case(), "before": format!("{before:?}"), "after": format!("{now:?}"), "want": format!("{want:?}")}));
			}
		}
		run.check(now.3 == before.3, "money appears or gets lost", || json!({"case": case(), "before": format!("{before:?}"), "after": format!("{now:?}")}));
		run.states(1);
		run.transitions(3);
		run.traces(1);
	});
	let _ = |x: RuntimeHoldReason| x;
	let _ = core::marker::PhantomData::<Payments>;
	run.info("outcomes", tally.json());
	run.sample(json!({"cases": cases.len(), "first": format!("{:?}", cases[0])}));
	run.sample(json!({"case": format!("{:?}", cases[cases.len() / 2])}));
	if !run.failed() && (tally.get("settled") == 0 || tally.get("nothing moved") == 0) {
		eprintln!("nothing was paid: error of the check");
		std::process::exit(3);
	}
	run.finish()
}

pub fn k02(run: Run) {
	let map = empty_chain(&[], &[], &[]);
	ext::restore(&map);
	let accounts = accounts();
	let mut numbers: Vec<u32> = (0..40).chain([u32::MAX, u32::MAX - 1]).collect();
	for k in 6..32 {
		numbers.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
	}
	for b in &accounts {
		ext::restore(&map);
		let got = <PaymentId as pallet_payments::PaymentId<Runtime>>::next(&acc(1), b);
		run.check(got.is_none(), "an id is given outside of an extrinsic", || json!({"beneficiary": enc(b)}));
		run.states(1);
		run.transitions(1);
	}
	par_for(numbers.len(), 1, |i| {
		for x in &numbers {
			ext::restore(&map);
			System::set_block_number(numbers[i]);
			System::set_extrinsic_index(*x);
			for b in &accounts {
				for s in [&acc(1), b, &accounts[0]] {
					let got = guard(|| <PaymentId as pallet_payments::PaymentId<Runtime>>::next(s, b));
					let want = PaymentId::from((numbers[i], *x, b.encode().as_slice()));
					run.check(got == Ok(Some(want)), "a payment gets another id", || json!({"block": numbers[i], "extrinsic": x, "beneficiary": enc(b), "got": format!("{got:?}")}));
					// the parts can be read off the id again
					run.check(want.block_number() == numbers[i], "the block is not in the id", || json!({"block": numbers[i], "extrinsic": x}));
				}
			}
			run.states(3 * accounts.len() as u64);
			run.transitions(3 * accounts.len() as u64);
			run.traces(3 * accounts.len() as u64);
		}
	});
	run.sample(json!({"block": 1, "extrinsic": 2, "beneficiary": enc(&acc(1)), "id": format!("{:?}", PaymentId::from((1u32, 2u32, acc(1).encode().as_slice())))}));
	run.sample(json!({"extrinsic": null, "id": null}));
	run.finish()
}

pub fn k06(run: Run) {
	type L = <Runtime as frame_system::Config>::Lookup;
	for a in accounts() {
		let got = guard(|| L::lookup(MultiAddress::Id(a.clone())).ok());
		run.check(got == Ok(Some(a.clone())), "an account resolves to another", || json!({"account": enc(&a)}));
		let back = guard(|| L::unlookup(a.clone())).map(|x| L::lookup(x).ok());
		run.check(back == Ok(Some(a.clone())), "an account does not survive the round trip", || json!({"account": enc(&a)}));
		let raw: [u8; 32] = a.clone().into();
		for other in [MultiAddress::Raw(raw.to_vec()), MultiAddress::Raw(vec![]), MultiAddress::Raw(raw[..20].to_vec()), MultiAddress::Address32(raw), MultiAddress::Address20(raw[..20].try_into().unwrap())] {
			let got = guard(|| L::lookup(other.clone()).ok());
			run.check(got == Ok(None), "an address resolves that should not", || json!({"address": format!("{other:?}"), "got": format!("{got:?}")}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		}
		run.states(1);
		run.transitions(2);
		run.traces(2);
	}
	par_for(65536, 1024, |c| {
		let got = guard(|| L::lookup(MultiAddress::Index(c as u16)).ok());
		run.check(got == Ok(Some(community_account(c as u16))), "a community number resolves to another account", || json!({"community": c, "got": format!("{got:?}")}));
		run.check(kreivo_runtime::Communities::community_account(&(c as u16)) == community_account(c as u16), "a community's account is another", || json!({"community": c}));
		run.states(1);
		run.transitions(2);
		run.traces(1);
	});
	run.sample(json!({"address": "Index(513)", "account": enc(&community_account(513))}));
	run.sample(json!({"address": "Address20", "account": null}));
	run.finish()
}

pub fn k09(run: Run) {
	type Ch = <<Runtime as pallet_pass::Config>::Authenticator as Challenged>::Challenger;
	let map = empty_chain(&[], &[], &[]);
	let mut nows: Vec<u32> = (0..if DEEP { 300 } else { 40 }).collect();
	nows.extend([255, 256, 257, 65535, 65536, 2_400, 4_096, u32::MAX - 2, u32::MAX - 1, u32::MAX]);
	let hash = |n: u32| sp_core::H256::from([(n % 251) as u8 + 1; 32]);
	par_for(nows.len(), 1, |i| {
		let now = nows[i];
		// which of the blocks near the present have a hash on record
		for known in 0..8u32 {
			ext::restore(&map);
			System::set_block_number(now);
			let near: Vec<u32> = (0..=8).map(|d| now.wrapping_add(3).wrapping_sub(d)).collect();
			let on_record = |n: u32| if n >= now { known & 4 != 0 } else if now - n <= 2 { known & 1 == 0 } else { known & 2 == 0 };
			for n in near.iter().chain([0, 1, u32::MAX].iter()) {
				if on_record(*n) {
					frame_system::BlockHash::<Runtime>::insert(n, hash(*n));
				}
			}
			for cx in near.iter().copied().chain([0, 1, now / 2, u32::MAX]) {
				let recent = cx < now && now - cx <= 3;
				let value: [u8; 32] = if System::block_hash(cx) == Default::default() { [0; 32] } else { hash(cx).0 };
				let mut tries: Vec<Vec<u8>> = vec![value.to_vec(), vec![0; 32], vec![], value[..31].to_vec(), [&value[..], &[0]].concat(), hash(cx.wrapping_add(1)).0.to_vec(), hash(cx.wrapping_sub(1)).0.to_vec()];
				for bit in [0usize, 7, 100, 255] {
					let mut v = value.to_vec();
					v[bit / 8] ^= 1 << (bit % 8);
					tries.push(v);
				}
				for t in tries {
					let got = guard(|| Ch::check_challenge(&cx, &t).is_some());
					let known_hash = value != [0; 32];
					let case = || json!({"now": now, "named": cx, "challenge": hex(&t), "on_record": known_hash});
					let want = recent && t == value;
					if recent && !known_hash && t == value {
						// a recent block always has its hash on record; the answer without one is left open
						continue;
					}
					run.check(got == Ok(want), if want { "a good challenge is refused" } else { "a bad challenge is accepted" }, case);
					run.states(1);
					run.transitions(1);
					run.traces(1);
				}
				// what is handed out is what is accepted
				let made = Ch::generate(&cx);
				run.check(made == value, "another challenge is handed out", || json!({"now": now, "named": cx}));
			}
		}
	});
	run.sample(json!({"now": 10, "named": 7, "accepted": true}));
	run.sample(json!({"now": 10, "named": 10, "accepted": false}));
	run.finish()
}

pub fn k14(run: Run) {
	type F = <Runtime as pallet_transaction_payment::Config>::WeightToFee;
	type L = <Runtime as pallet_transaction_payment::Config>::LengthToFee;
	let fee = |r: u64, p: u64| -> u128 { F::weight_to_fee(&Weight::from_parts(r, p)) };
	let mut v: Vec<u64> = (0..if DEEP { 600 } else { 130 }).collect();
	for k in 7..64 {
		for d in [-3i64, -1, 0, 1, 2] {
			v.push((1u64 << k).wrapping_add_signed(d));
		}
		v.push(3u64 << (k - 2));
	}
	for k in 2..20 {
		v.push(10u64.pow(k));
		v.push(10u64.pow(k) / 3 * 2);
	}
	v.extend([u64::MAX, 98_974_000, 2_000_000_000_000, 5 * 1024 * 1024]);
	v.sort();
	v.dedup();
	let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time();
	let cents = UNIT / 30 / 100;
	// exact prices, as fractions
	let time = |r: u64| (r as u128 * cents, 100 * base as u128);
	let proof = |p: u64| (p as u128 * cents, 10_000u128);
	let near = |got: u128, (n, d): (u128, u128)| {
		let exact = n / d;
		let slack = 1 + exact / 1_000_000;
		got + slack >= exact && got <= exact + slack
	};
	par_for(v.len(), 1, |i| {
		let r = v[i];
		let alone = fee(r, 0);
		run.check(near(alone, time(r)), "time is priced otherwise", || json!({"ref_time": r, "fee": alone.to_string(), "price": format!("{:?}", time(r))}));
		for (j, p) in v.iter().enumerate() {
			let got = guard(|| fee(r, *p));
			let Ok(got) = got else {
				run.fail("deciding about a fee panics", json!({"ref_time": r, "proof_size": p}));
				continue;
			};
			run.check(got == alone.max(fee(0, *p)), "the fee is not that of the scarcer resource", || json!({"ref_time": r, "proof_size": p, "fee": got.to_string()}));
			if i > 0 {
				run.check(fee(v[i - 1], *p) <= got, "more time costs less", || json!({"ref_time": r, "proof_size": p, "fee": got.to_string()}));
			}
			if j > 0 {
				run.check(fee(r, v[j - 1]) <= got, "more proof costs less", || json!({"ref_time": r, "proof_size": p, "fee": got.to_string()}));
			}
			let dear = |(n, d): (u128, u128)| n >= d + d / 1000;
			run.check(got > 0 || !(dear(time(r)) || dear(proof(*p))), "the fee vanishes", || json!({"ref_time": r, "proof_size": p}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		}
		let p = fee(0, r);
		run.check(near(p, proof(r)), "proof size is priced otherwise", || json!({"proof_size": r, "fee": p.to_string(), "price": format!("{:?}", proof(r))}));
		let l: u128 = L::weight_to_fee(&Weight::from_parts(r, 0));
		run.check(l == r as u128 * (cents / 1_000 * 10), "bytes are priced otherwise", || json!({"bytes": r, "fee": l.to_string()}));
	});
	run.check(near(fee(base, 0), (cents, 100)), "a plain extrinsic costs otherwise", || json!({"fee": fee(base, 0).to_string()}));
	run.check(fee(0, 10_000) == cents, "10 kB of proof cost otherwise", || json!({"fee": fee(0, 10_000).to_string()}));
	run.sample(json!({"ref_time": base, "proof_size": 0, "fee": fee(base, 0).to_string()}));
	run.sample(json!({"ref_time": 0, "proof_size": 10_000, "fee": fee(0, 10_000).to_string()}));
	run.finish()
}

/// The asset a location names on this chain.
fn local_asset(l: &Location) -> Option<FungibleAssetLocation> {
	use sp_runtime::traits::MaybeEquivalence;
	virto_common::AsFungibleAssetLocation::convert(l)
}
pub fn k19(run: Run) {
	use fungible::Inspect as _;
	use fungibles::Inspect as _;
	type Tr = <X as ExecutorConfig>::AssetTransactor;
	type Pay = <X as ExecutorConfig>::Trader;
	let js = {
		use xcm::latest::prelude::*;
		vec![Parachain(1000), Parachain(1001), Parachain(70_000), PalletInstance(50), PalletInstance(13), PalletInstance(12), GeneralIndex(1984), GeneralIndex(1), GeneralIndex(u32::MAX as u128 + 1), GlobalConsensus(NetworkId::Polkadot), GlobalConsensus(NetworkId::Kusama), GlobalConsensus(NetworkId::Westend), AccountId32 { network: None, id: [1; 32] }]
	};
	let ids = locations_over(&js, 0..=3, if DEEP { 4 } else { 3 });
	let extra: Vec<Location> = locations_over(&js, 2..=2, 4).into_iter().filter(|l| l.interior.len() == 4 && matches!(l.interior.as_slice()[0], Junction::GlobalConsensus(_)) && matches!(l.interior.as_slice()[1], Junction::Parachain(_))).collect();
	let ids: Vec<Location> = ids.into_iter().chain(extra).collect();
	run.check(<Assets as PalletInfoAccess>::index() == 13, "assets of this chain are located at another pallet", || json!({"index": <Assets as PalletInfoAccess>::index()}));
	// every asset that can be named exists
	let mut assets: Vec<FungibleAssetLocation> = ids.iter().filter_map(local_asset).collect();
	assets.sort_by_key(|a| a.encode());
	assets.dedup();
	let listed: Vec<_> = assets.iter().map(|a| (*a, 1u128)).collect();
	let holder = Location::new(0, [Junction::AccountId32 { network: None, id: [1; 32] }]);
	let held: Vec<_> = assets.iter().map(|a| (*a, acc(1), 1_000u128)).collect();
	let map = empty_chain(&[(acc(1), 1_000 * UNIT), (treasury(), UNIT), (acc(2), UNIT)], &listed, &held);
	let none = empty_chain(&[(acc(1), 1_000 * UNIT), (treasury(), UNIT)], &[], &[]);
	let places = {
		let mut v = vec![holder.clone(), Location::parent(), Location::new(1, [Junction::Parachain(1000)]), Location::here(), Location::new(2, [Junction::Parachain(1)])];
		v.extend(junctions().into_iter().map(|j| Location::new(0, [j])));
		v
	};
	let relay = Location::parent();
	let hub = |l: &Location| {
		use xcm::latest::prelude::*;
		(l.parents == 1 && l.interior.as_slice().first() == Some(&Parachain(1000))) || (l.parents == 2 && l.interior.as_slice().first() == Some(&GlobalConsensus(NetworkId::Polkadot)))
	};
	let tally = Tallier::default();
	let changed = |before: &ext::Map| {
		let now = ext::snapshot();
		now.iter().filter(|(k, v)| before.get(*k) != Some(v)).count() + before.keys().filter(|k| !now.contains_key(*k)).count()
	};
	par_for(ids.len(), 32, |i| {
		let id = &ids[i];
		let case = |to: &Location| json!({"asset": format!("{id:?}"), "party": format!("{to:?}")});
		let native = *id == relay;
		let amount = if native { UNIT } else { 100 };
		let what = Asset { id: AssetId(id.clone()), fun: Fungible(amount) };
		let known = local_asset(id);
		// only some parties for most of the assets: the party and the asset are decided separately
		for to in if i % 97 == 0 || native || known.is_some() { &places[..] } else { &places[..3] } {
			ext::restore(&map);
			let party = account_of(to);
			let was = party.as_ref().map(|p| (Balances::total_balance(p), known.map(|a| Assets::total_balance(a, p))));
			let r = guard(|| Tr::deposit_asset(&what, to).is_ok());
			let want = party.is_some() && (native || known.is_some());
			run.check(r == Ok(want), if want { "an asset cannot be deposited" } else { "an asset is deposited that is not known" }, || case(to));
			if want {
				tally.hit("deposited");
				let (p, was) = (party.clone().unwrap(), was.unwrap());
				let now = (Balances::total_balance(&p), known.map(|a| Assets::total_balance(a, &p)));
				let expect = if native { (was.0 + amount, was.1) } else { (was.0, was.1.map(|n| n + 100)) };
				run.check(now == expect, "an asset is deposited elsewhere", || case(to));
				let issued = known.filter(|_| !native).map(|a| Assets::total_issuance(a));
				run.check(issued.map_or(true, |n| n == 1_100), "another amount is issued", || case(to));
				// and can be taken out again, once
				let out = guard(|| (Tr::withdraw_asset(&what, to).is_ok(), party == Some(acc(1)) || known.is_none() || Tr::withdraw_asset(&what, to).is_err()));
				run.check(out == Ok((true, true)), "an asset deposited is not there to withdraw", || case(to));
				let then = (Balances::total_balance(&p), known.map(|a| Assets::total_balance(a, &p)));
				run.check(then == was, "withdrawing takes another amount", || case(to));
			} else {
				run.check(r != Ok(false) || changed(&map) == 0, "a refused deposit leaves traces", || case(to));
				tally.hit("refused");
			}
			run.states(1);
			run.transitions(3);
			run.traces(1);
		}
		// nothing about assets that are not registered
		ext::restore(&none);
		if !native {
			let r = guard(|| Tr::deposit_asset(&what, &holder).is_ok() || Tr::withdraw_asset(&what, &holder).is_ok());
			run.check(r == Ok(false) && changed(&none) == 0, "an asset appears out of nowhere", || case(&holder));
		}
		// more than there is cannot be taken
		ext::restore(&map);
		let all = Asset { id: AssetId(id.clone()), fun: Fungible(u128::MAX) };
		let r = guard(|| Tr::withdraw_asset(&all, &holder).is_ok());
		run.check(r == Ok(false), "more is withdrawn than there is", || case(&holder));
		// what buys execution, and who gets it
		ext::restore(&map);
		let pays = guard(|| Pay::pays(&what));
		let want = native || (known.is_some() && hub(id));
		run.check(pays == Ok(want), if want { "an asset does not buy execution" } else { "an asset buys execution that should not" }, || case(&holder));
		let was = (Balances::total_balance(&treasury()), known.map(|a| Assets::total_balance(a, &treasury())));
		let r = guard(|| Pay::collect(&what));
		let now = (Balances::total_balance(&treasury()), known.map(|a| Assets::total_balance(a, &treasury())));
		let expect = match (want, native) {
			(true, true) => (was.0 + amount, was.1),
			(true, false) => (was.0, was.1.map(|n| n + 100)),
			_ => was,
		};
		run.check(r == Ok(want) && now == expect, "what is paid does not reach the treasury", || case(&holder));
		// a thing is not an amount
		let thing = Asset { id: AssetId(id.clone()), fun: NonFungible(xcm::latest::AssetInstance::Index(1)) };
		ext::restore(&map);
		let r = guard(|| Tr::deposit_asset(&thing, &holder).is_ok() || Pay::pays(&thing));
		run.check(r == Ok(false) && changed(&map) == 0, "a single thing passes as an amount", || case(&holder));
		run.transitions(5);
		run.states(1);
	});
	run.info("outcomes", tally.json());
	run.info("assets", json!({"locations": ids.len(), "registered": assets.len()}));
	run.sample(json!({"asset": "../Parachain(1000)/PalletInstance(50)/GeneralIndex(1984)", "ledger": "assets"}));
	run.sample(json!({"asset": "..", "ledger": "balances"}));
	run.finish()
}

/// Transaction fees and where they go.
pub fn k20(run: Run) {
	use fungible::Balanced as _;
	use fungible::Inspect as _;
	use fungibles::Balanced as _;
	use fungibles::Inspect as _;
	use pallet_asset_tx_payment::HandleCredit;
	type Native = <<Runtime as pallet_transaction_payment::Config>::OnChargeTransaction as pallet_transaction_payment::Collects>::To;
	type Other = <<Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction as pallet_asset_tx_payment::Collects>::To;
	let accounts = accounts();
	let assets: Vec<_> = MINS.iter().enumerate().map(|(i, m)| (asset(i), *m)).collect();
	let held: Vec<_> = assets.iter().map(|(a, m)| (*a, acc(1), 1_000.max(*m))).collect();
	let map = empty_chain(&[(acc(1), UNIT), (treasury(), UNIT)], &assets, &held);
	let fees = [1u128, 2, 3, 99, 100, 101, 999_999, 1_000_000, UNIT];
	par_for(accounts.len() + 1, 2, |i| {
		let author = accounts.get(i);
		for (a, min) in &assets {
			for fee in fees {
				ext::restore(&map);
				if let Some(x) = author {
					ext::put(pallet_authorship::AUTHOR_KEY, x.encode());
				}
				let case = || json!({"author": author.map(enc), "asset_minimum": min, "fee": fee.to_string()});
				let all = || accounts.iter().map(|x| Assets::total_balance(*a, x)).collect::<Vec<_>>();
				let before = (all(), Assets::total_issuance(*a), Balances::total_issuance());
				let r = guard(|| <Other as HandleCredit<Acc, Assets>>::handle_credit(Assets::issue(*a, fee)));
				let after = (all(), Assets::total_issuance(*a), Balances::total_issuance());
				run.check(r.is_ok(), "handing over a fee panics", case);
				let mut want = before.clone();
				if let Some(x) = author {
					if before.0[i] + fee >= *min {
						want.0[i] += fee;
						want.1 += fee;
					}
					let _ = x;
				}
				run.check(after == want, "a fee in an asset does not go to the author", || json!({"case": case(), "issued": after.1.to_string(), "expected": want.1.to_string()}));
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}
		for fee in fees {
			ext::restore(&map);
			if let Some(x) = author {
				ext::put(pallet_authorship::AUTHOR_KEY, x.encode());
			}
			let before = (Balances::total_balance(&treasury()), Balances::total_issuance());
			Native::on_unbalanced(Balances::issue(fee));
			let after = (Balances::total_balance(&treasury()), Balances::total_issuance());
			run.check(after == (before.0 + fee, before.1 + fee), "a fee does not reach the treasury", || json!({"fee": fee.to_string()}));
			run.states(1);
			run.transitions(1);
		}
	});
	run.sample(json!({"author": null, "fee": 100, "burned": true}));
	run.sample(json!({"author": enc(&acc(1)), "fee": 100, "burned": false}));
	run.finish()
}

/// What things cost in the chain's own money.
pub fn k26(run: Run) {
	use frame_support::traits::Get;
	use fungible::Inspect as _;
	use kreivo_runtime::KreivoAssetsInstance as A1;
	use pallet_nfts::Instance2 as N2;
	let cents = UNIT / 30 / 100;
	let milli = cents / 1000;
	run.check(kreivo_runtime::UNITS == UNIT && kreivo_runtime::CENTS == cents && kreivo_runtime::MILLICENTS == milli && kreivo_runtime::GRAND == UNIT / 30 * 1000, "units differ from the relay chain's", || {
		json!({"unit": kreivo_runtime::UNITS.to_string(), "cent": kreivo_runtime::CENTS.to_string(), "millicent": kreivo_runtime::MILLICENTS.to_string(), "grand": kreivo_runtime::GRAND.to_string()})
	});
	run.check(Balances::minimum_balance() == cents / 10, "the smallest account is another", || json!(Balances::minimum_balance().to_string()));
	// storage: a hundredth of the relay chain's price
	let price = |items: u32, bytes: u32| (items as u128 * 2000 * cents + bytes as u128 * 100 * milli) / 100;
	let mut v: Vec<u32> = (0..=600).collect();
	for k in 9..32 {
		v.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
	}
	v.extend([u32::MAX - 1, u32::MAX]);
	par_for(v.len(), 4, |i| {
		for bytes in &v {
			let got = guard(|| kreivo_runtime::deposit(v[i], *bytes));
			run.check(got == Ok(price(v[i], *bytes)), "storage is priced otherwise", || json!({"items": v[i], "bytes": bytes, "got": format!("{got:?}")}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		}
	});
	macro_rules! costs {
		($($what:literal $ty:ty = $want:expr;)*) => { $({
			let (got, want): (u128, u128) = (<$ty as Get<u128>>::get(), $want);
			run.check(got == want, concat!($what, " costs another deposit"), || json!({"deposit": got.to_string(), "expected": want.to_string()}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		})* };
	}
	costs! {
		"a multisig" <Runtime as pallet_multisig::Config>::DepositBase = price(1, 88);
		"a signatory" <Runtime as pallet_multisig::Config>::DepositFactor = price(0, 32);
		"a proxy" <Runtime as pallet_proxy::Config>::ProxyDepositBase = price(1, 40);
		"a further proxy" <Runtime as pallet_proxy::Config>::ProxyDepositFactor = price(0, 33);
		"an announcement" <Runtime as pallet_proxy::Config>::AnnouncementDepositBase = price(1, 48);
		"a further announcement" <Runtime as pallet_proxy::Config>::AnnouncementDepositFactor = price(0, 66);
		"an asset" <Runtime as pallet_assets::Config<A1>>::AssetDeposit = UNIT / 10;
		"an asset account" <Runtime as pallet_assets::Config<A1>>::AssetAccountDeposit = price(1, 16);
		"an asset's description" <Runtime as pallet_assets::Config<A1>>::MetadataDepositBase = price(1, 68);
		"a byte of an asset's description" <Runtime as pallet_assets::Config<A1>>::MetadataDepositPerByte = price(0, 1);
		"a membership's description" <Runtime as pallet_nfts::Config<N2>>::MetadataDepositBase = price(1, 68);
		"a membership's attribute" <Runtime as pallet_nfts::Config<N2>>::AttributeDepositBase = price(1, 0);
		"a byte about a membership" <Runtime as pallet_nfts::Config<N2>>::DepositPerByte = price(0, 1);
		"a membership" <Runtime as pallet_nfts::Config<N2>>::ItemDeposit = 0;
		"a collection of memberships" <Runtime as pallet_nfts::Config<N2>>::CollectionDeposit = 0;
	}
	// a preimage: two items and its bytes, held from who stores it
	use frame_support::traits::{Consideration, Footprint};
	type C = <Runtime as pallet_preimage::Config>::Consideration;
	let map = empty_chain(&[(treasury(), UNIT), (acc(1), 1_000_000 * UNIT)], &[], &[]);
	let sizes: Vec<u32> = (0..=600).chain([1 << 10, 1 << 12, 1 << 16, 1 << 20, 4 << 20]).collect();
	par_for(sizes.len(), 8, |i| {
		ext::restore(&map);
		let n = sizes[i];
		let _ticket: Result<C, _> = <C as Consideration<Acc, Footprint>>::new(&acc(1), Footprint::from_parts(1, n as usize));
		let got = <Balances as fungible::InspectHold<Acc>>::total_balance_on_hold(&acc(1));
		run.check(got == price(2, 64) + n as u128 * price(0, 1), "a preimage costs another deposit", || json!({"bytes": n, "deposit": got.to_string()}));
		run.states(1);
		run.transitions(1);
		run.traces(1);
	});
	// the relay chain's money and its price of weight, as this chain knows it, on either relay chain
	macro_rules! relay {
		($relay:literal $c:ident: $unit:expr, $cents:expr, $grand:expr) => {{
			let (unit, cents, grand): (u128, u128, u128) = ($unit, $cents, $grand);
			let milli = cents / 1000;
			use $c::currency::*;
			run.check(UNITS == unit && CENTS == cents && MILLICENTS == milli && GRAND == grand && EXISTENTIAL_DEPOSIT == cents, concat!("units differ from those of ", $relay), || {
				json!({"unit": UNITS.to_string(), "cent": CENTS.to_string(), "millicent": MILLICENTS.to_string(), "grand": GRAND.to_string(), "smallest account": EXISTENTIAL_DEPOSIT.to_string()})
			});
			for items in &v {
				for bytes in v.iter().step_by(7) {
					let got = guard(|| $c::currency::deposit(*items, *bytes));
					let want = *items as u128 * 2000 * cents + *bytes as u128 * 100 * milli;
					run.check(got == Ok(want), concat!("storage is priced otherwise on ", $relay), || json!({"items": items, "bytes": bytes, "got": format!("{got:?}")}));
					run.states(1);
					run.transitions(1);
					run.traces(1);
				}
			}
			let base = $c::weights::ExtrinsicBaseWeight::get().ref_time();
			let fee = |w: u64| -> u128 { <$c::fee::WeightToFee as WeightToFee>::weight_to_fee(&Weight::from_parts(w, 0)) };
			let mut last = 0;
			for k in 0..=20_000u64 {
				let w = base / 100 * k;
				let got = fee(w);
				let exact = w as u128 * cents / (10 * base as u128);
				let slack = 1 + exact / 1_000_000;
				run.check(got + slack >= exact && got <= exact + slack, concat!("weight is priced otherwise on ", $relay), || json!({"weight": w, "fee": got.to_string(), "expected": exact.to_string()}));
				run.check(got >= last, concat!("more weight costs less on ", $relay), || json!({"weight": w}));
				last = got;
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}};
	}
	relay!("Kusama" runtime_constants: UNIT, cents, UNIT / 30 * 1000);
	relay!("Paseo" runtime_constants_paseo: UNIT / 100, UNIT / 10_000, UNIT * 10);
	run.sample(json!({"items": 1, "bytes": 88, "deposit": price(1, 88).to_string()}));
	run.finish()
}
