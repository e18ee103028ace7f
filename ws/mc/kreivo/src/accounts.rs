//! K32: the accounts of communities stay alive whatever they own.
use crate::world::*;
use frame_support::traits::{fungible, fungibles};
use kreivo_runtime::{Assets, *};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use shim_base::ext;
use sp_runtime::{BuildStorage, MultiAddress};

const MIN: u128 = 10;
const ALONE: FungibleAssetLocation = FungibleAssetLocation::Here(1);
const NEEDY: FungibleAssetLocation = FungibleAssetLocation::Here(2);
/// What is given or taken: an asset that keeps accounts alive, one that does not, the native currency.
const THINGS: [Option<FungibleAssetLocation>; 3] = [Some(ALONE), Some(NEEDY), None];

fn owns(who: &Acc) -> [u128; 3] {
	THINGS.map(|t| match t {
		Some(a) => <Assets as fungibles::Inspect<Acc>>::total_balance(a, who),
		None => <Balances as fungible::Inspect<Acc>>::total_balance(who),
	})
}
fn pass(thing: Option<FungibleAssetLocation>, amount: u128, to: &Acc) -> RuntimeCall {
	let to = MultiAddress::Id(to.clone());
	match thing {
		Some(a) => pallet_assets::Call::<Runtime, KreivoAssetsInstance>::transfer { id: a.into(), target: to, amount }.into(),
		None => pallet_balances::Call::<Runtime>::transfer_allow_death { dest: to, value: amount }.into(),
	}
}

pub fn k32(run: Run) {
	let ed = <Balances as fungible::Inspect<Acc>>::minimum_balance();
	let portions = [MIN, MIN, ed];
	let giver = acc(5);
	let mut maps = vec![];
	for paid in [false, true] {
		for early in [false, true] {
			let mut native = vec![(giver.clone(), 1000 * UNIT), (treasury(), 10 * UNIT)];
			if early {
				native.push((community_account(1), ed));
			}
			let t = RuntimeGenesisConfig {
				balances: BalancesConfig { balances: native },
				assets: AssetsConfig {
					assets: vec![(ALONE, acc(0xaa), true, MIN), (NEEDY, acc(0xaa), false, MIN)],
					metadata: vec![],
					accounts: vec![(ALONE, giver.clone(), 1 << 40), (NEEDY, giver.clone(), 1 << 40)],
					next_asset_id: None,
				},
				..Default::default()
			}
			.build_storage()
			.unwrap();
			let map = sp_io::TestExternalities::new(t).execute_with(|| {
				System::set_block_number(1);
				collection(0, treasury());
				register(&if paid { Who::Signed(giver.clone()) } else { Who::Root }, 1, &acc(0x11)).expect("registers");
				System::reset_events();
				ext::snapshot()
			});
			maps.push((paid, early, map));
		}
	}
	let tally = Tallier::default();
	// an account that is nobody's in particular cannot keep what does not keep it alive
	ext::restore(&maps[0].2);
	let refused = dispatch(pass(Some(NEEDY), MIN, &acc(0x77)), &Who::Signed(giver.clone())).is_err();
	if !refused {
		eprintln!("the asset that needs a living account does not: error of the check");
		std::process::exit(3);
	}
	// the one for the community, the other for the account that gives
	let me = community_account(1);
	let ops: Vec<(bool, usize, u128)> = [true, false].into_iter().flat_map(|give| (0..3).flat_map(move |t| [(give, t, 1), (give, t, 2)])).collect();
	let length = if DEEP { 5 } else { 4 };
	let n = ops.len();
	par_for(maps.len() * n.pow(length), 256, |i| {
		let (paid, early, map) = &maps[i % maps.len()];
		let word: Vec<_> = (0..length).map(|p| ops[i / maps.len() / n.pow(p) % n]).collect();
		ext::restore(map);
		run.states(1);
		let mut have = [0, 0, if *early { ed } else { 0 }];
		for (at, (give, t, times)) in word.iter().enumerate() {
			let amount = portions[*t] * times;
			let (from, to) = if *give { (&giver, &me) } else { (&me, &giver) };
			let allowed = *give || have[*t] >= amount;
			let call = pass(THINGS[*t], amount, to);
			let before = (owns(from), owns(to));
			let done = guard(|| {
				if *give {
					dispatch(call, &Who::Signed(giver.clone()))
				} else {
					dispatch(pallet_communities::Call::<Runtime>::new_call_variant_dispatch_as_account(Box::new(call)), &Who::Community(1, 0))
				}
			});
			run.transitions(1);
			let had = have;
			let case = || json!({"paid for": paid, "funds before the founding": early, "steps (given, thing, portions)": word[..=at].iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "owned": had.map(|x| x.to_string())});
			let Ok(done) = done else {
				run.fail("moving what a community owns panics", case());
				return;
			};
			if !run.check(done.is_ok() == allowed, "a community cannot keep or spend what it owns, or spends what it does not", case) {
				return;
			}
			tally.hit(match (*give, allowed, have[2] == 0) {
				(true, _, true) if *t == 1 => "given without funds",
				(true, ..) => "given",
				(false, true, _) => "taken",
				_ => "refused",
			});
			if allowed {
				have[*t] = if *give { have[*t] + amount } else { have[*t] - amount };
			}
			let mut wanted = before.clone();
			if allowed {
				wanted.0[*t] -= amount;
				wanted.1[*t] += amount;
			}
			run.check((owns(from), owns(to)) == wanted && owns(&me) == have, "what a community owns is not what it was given and did not spend", case);
			run.check(System::account_exists(&me), "a community's account is gone", case);
		}
	});
	run.info("steps_by_kind", tally.json());
	run.sample(json!({"steps": ["founded without funds", "given the asset that keeps no account alive", "given native currency", "spends all native currency"]}));
	for k in ["given without funds", "given", "taken", "refused"] {
		if tally.get(k) == 0 && !run.failed() {
			eprintln!("'{k}' never happened: error of the check");
			std::process::exit(3);
		}
	}
	run.finish();
}
