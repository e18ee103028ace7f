//! M10 (ratios), M12 (cross-chain identities) and M13 (accounts): exhaustive over ranges of values.
use crate::model::*;
use crate::rt::*;
use crate::{account, origin};
use fc_traits_memberships::GenericRank;
use frame_support::traits::{fungible, EnsureOrigin, Get, OriginTrait, VoteTally};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run};
use pallet_communities::origin::{AsSignedByCommunity, AsSignedByStaticCommunity, RawOrigin, Subset};
use pallet_communities::{Call, Vote};
use shim_base::ext;
use sp_runtime::traits::{Dispatchable, TryConvert};
use sp_runtime::Permill;
use std::collections::HashMap;
use xcm::latest::{BodyId, BodyPart, Junction, Location, NetworkId};

pub fn run(run: &Run) {
	match run.property.as_str() {
		"M12" => identities(run),
		_ => accounts(run),
	}
}

/// Every pair of ayes and nays over boundary weights, against every issuance: cast as real votes.
pub fn ratios(run: &Run) {
	const W: [u64; 18] = [
		0, 1, 2, 3, 7, 100, 999_999_999, 1_000_000_000, 1_000_000_001, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 3_000_000_000, u32::MAX as u64 - 1,
		u32::MAX as u64, u32::MAX as u64 + 1, 1 << 40,
	];
	const MORE: [u64; 6] = [0, 1, 3, 1_000_000_007, u32::MAX as u64, 1 << 50];
	let cases: Vec<(u64, u64, u64)> = W.iter().flat_map(|a| W.iter().flat_map(move |n| MORE.iter().map(move |m| (*a, *n, *m)))).collect();
	par_for(cases.len(), 16, |i| {
		let (a, n, more) = cases[i];
		run.states(1);
		run.traces(1);
		let s = crate::base_with(
			&[(1, 1, 1), (2, 1, 2)],
			&[(1, 1), (2, 1)],
			&[(Og::Signed(1), a.max(1)), (Og::Signed(2), n.max(1)), (Og::Signed(3), more.max(1))],
			&[],
			Method::Native,
			&[(0, 1)],
		);
		ext::restore(&s.map);
		for (who, m, aye, amount) in [(1u8, 1u32, true, a), (2, 2, false, n)] {
			if amount > 0 {
				let c: RuntimeCall = Call::new_call_variant_vote(m, 0, Vote::NativeBalance(aye, amount)).into();
				run.transitions(1);
				if !run.check(c.dispatch(RuntimeOrigin::signed(acc(who))).is_ok(), "vote rejected", || json!({"amount": amount})) {
					return;
				}
			}
		}
		let t = Polls::get(0).expect("poll").tally;
		let cap = |x: u64| x.min(u32::MAX as u64) as u128;
		let issued = cap(<Balances as fungible::Inspect<AccountId>>::total_issuance());
		let floor = |x: u128, y: u128| (x * 1_000_000_000 / y.max(1)).min(1_000_000_000) as u32;
		let case = |w: u32, g: &str| json!({"ayes": a, "nays": n, "issuance": issued.to_string(), "expected": w, "found": g});
		let want = floor(cap(a), cap(a) + cap(n));
		let got = guard(|| t.approval(Cid(1)).deconstruct());
		run.check(got == Ok(want), "approval is not ayes over all votes", || case(want, &format!("{got:?}")));
		let want = floor(cap(a), issued);
		let got = guard(|| t.support(Cid(1)).deconstruct());
		run.check(got == Ok(want), "support is not bare ayes over the issuance", || case(want, &format!("{got:?}")));
		if i % 500 == 7 {
			run.sample(case(want, &format!("{got:?}")));
		}
	});
}

fn parts() -> Vec<BodyPart> {
	const N: [u32; 8] = [0, 1, 2, 3, 65_535, 65_536, 1_000_000, u32::MAX];
	let mut v = vec![BodyPart::Voice];
	for n in N {
		v.push(BodyPart::Members { count: n });
		for d in N {
			v.push(BodyPart::Fraction { nom: n, denom: d });
			v.push(BodyPart::AtLeastProportion { nom: n, denom: d });
			v.push(BodyPart::MoreThanProportion { nom: n, denom: d });
		}
	}
	for n in 0..=64 {
		for d in 1..=64 {
			v.push(BodyPart::Fraction { nom: n, denom: d });
		}
	}
	v
}

fn identities(run: &Run) {
	let ids: Vec<u32> = (0..=300).chain([65_534, 65_535, 65_536, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
	let with = |id: u32, s: Option<Subset<Rt>>| {
		let mut o = RawOrigin::<Rt>::new(Cid(id));
		if let Some(s) = s {
			o.with_subset(s)
		}
		o
	};
	// outgoing
	let mut subsets: Vec<(Option<Subset<Rt>>, Option<BodyPart>, bool)> = vec![(None, Some(BodyPart::Voice), true)];
	for count in [0, 1, 2, 3, 255, 65_536, u32::MAX] {
		subsets.push((Some(Subset::Members { count }), Some(BodyPart::Members { count }), true));
		// one member, whoever it is, counts as one member
		subsets.push((Some(Subset::Member(count)), Some(BodyPart::Members { count: 1 }), false));
	}
	let step = if run.thorough() { 1 } else { 9973 };
	for p in (0..=1_000_000u32).step_by(step).chain([1, 499_999, 500_000, 500_001, 999_999, 1_000_000]) {
		subsets.push((Some(Subset::Fraction(Permill::from_parts(p))), Some(BodyPart::Fraction { nom: p, denom: 1_000_000 }), true));
	}
	for r in 0..=255u8 {
		subsets.push((Some(Subset::AtLeastRank(GenericRank::from(r))), None, true));
	}
	let ids_out: Vec<u32> = if run.thorough() { vec![0, 1, 2, 255, 65_535, 65_536, u32::MAX] } else { ids.clone() };
	par_for(subsets.len(), 16, |i| {
		let (sub, part, back) = &subsets[i];
		for id in &ids_out {
			run.states(1);
			run.transitions(2);
			run.traces(1);
			let o = with(*id, sub.clone());
			let got = guard(|| Junction::try_from(o.clone()));
			let want = part.map(|part| Junction::Plurality { id: BodyId::Index(*id), part }).ok_or(());
			let case = || json!({"community": id, "subset": format!("{sub:?}"), "expected": format!("{want:?}"), "found": format!("{got:?}")});
			if !run.check(got.as_ref() == Ok(&want), "community origin translated unfaithfully", case) {
				continue;
			}
			let loc = guard(|| <RawOrigin<Rt> as TryConvert<RuntimeOrigin, Location>>::try_convert(RuntimeOrigin::from(o.clone())).ok());
			run.check(loc == Ok(want.ok().map(Location::from)), "location of a community origin is not its plurality", || {
				json!({"community": id, "subset": format!("{sub:?}"), "found": format!("{loc:?}")})
			});
			if let (Ok(j), true) = (want, back) {
				let r = guard(|| RawOrigin::<Rt>::try_from(j));
				run.check(r == Ok(Ok(o.clone())), "translating back yields something else", || json!({"junction": format!("{j:?}"), "found": format!("{r:?}")}));
			}
			if i < 3 && *id < 2 {
				run.sample(case());
			}
		}
	});
	// origins that are no community
	for og in [Og::Root, Og::Nobody, Og::Signed(1), Og::Acct(1)] {
		run.states(1);
		run.traces(1);
		let o = origin(og);
		let r = guard(|| <RawOrigin<Rt> as TryConvert<RuntimeOrigin, Location>>::try_convert(o).is_err());
		run.check(r == Ok(true), "an origin that is no community gets a plurality", || json!(format!("{og:?}")));
	}
	// incoming
	let parts = parts();
	par_for(parts.len(), 16, |i| {
		let part = parts[i];
		for id in &ids {
			run.states(1);
			run.transitions(1);
			run.traces(1);
			let j = Junction::Plurality { id: BodyId::Index(*id), part };
			let got = guard(|| RawOrigin::<Rt>::try_from(j));
			let case = || json!({"junction": format!("{j:?}"), "found": format!("{got:?}")});
			let sub = match part {
				BodyPart::Voice => None,
				BodyPart::Members { count } => Some(Subset::Members { count }),
				BodyPart::Fraction { nom, denom } if denom > 0 && nom <= denom => {
					Some(Subset::Fraction(Permill::from_parts((nom as u64 * 1_000_000 / denom as u64) as u32)))
				}
				// not a fraction of anything: only the community matters
				BodyPart::Fraction { .. } => {
					let fine = match &got {
						Ok(Err(())) => true,
						Ok(Ok(o)) => o.id() == Cid(*id),
						Err(_) => false,
					};
					run.check(fine, "plurality translated to another community", case);
					continue;
				}
				_ => {
					run.check(got == Ok(Err(())), "a body part without counterpart is translated", case);
					continue;
				}
			};
			run.check(got == Ok(Ok(with(*id, sub.clone()))), "plurality translated unfaithfully", case);
		}
	});
	for body in [
		BodyId::Unit,
		BodyId::Moniker(*b"comm"),
		BodyId::Executive,
		BodyId::Technical,
		BodyId::Legislative,
		BodyId::Judicial,
		BodyId::Defense,
		BodyId::Administration,
		BodyId::Treasury,
	] {
		for part in &parts {
			run.states(1);
			run.traces(1);
			let j = Junction::Plurality { id: body, part: *part };
			let r = guard(|| RawOrigin::<Rt>::try_from(j));
			run.check(r == Ok(Err(())), "another body becomes a community", || json!(format!("{j:?}")));
		}
	}
	for j in [
		Junction::Parachain(1),
		Junction::AccountId32 { network: None, id: [1; 32] },
		Junction::AccountIndex64 { network: Some(NetworkId::Polkadot), index: 1 },
		Junction::AccountKey20 { network: None, key: [1; 20] },
		Junction::PalletInstance(1),
		Junction::GeneralIndex(1),
		Junction::GeneralKey { length: 1, data: [1; 32] },
		Junction::OnlyChild,
		Junction::GlobalConsensus(NetworkId::Kusama),
	] {
		run.states(1);
		run.traces(1);
		let r = guard(|| RawOrigin::<Rt>::try_from(j));
		run.check(r == Ok(Err(())), "another junction becomes a community", || json!(format!("{j:?}")));
	}
}

struct Two;
impl Get<Cid> for Two {
	fn get() -> Cid {
		Cid(2)
	}
}

fn accounts(run: &Run) {
	let s = crate::base(&[(1, 1, 1)], Method::Membership, &[]);
	let blocked = crate::setup(s.clone(), &[Op::Block { id: 1, blocked: true }]);
	let n: u32 = if run.thorough() { 1 << 20 } else { 1 << 16 };
	let ids: Vec<u32> = (0..n).chain([1 << 24, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
	let all = std::sync::Mutex::new(HashMap::<AccountId, u32>::new());
	par_for(ids.len(), 1024, |i| {
		let id = ids[i];
		run.states(1);
		run.transitions(1);
		run.traces(1);
		// the account must not depend on anything stored
		let mut seen = vec![];
		for map in [&s.map, &blocked.map, &ext::Map::default()] {
			if id > 4 && !seen.is_empty() && id % 257 != 0 {
				continue;
			}
			ext::restore(map);
			seen.push(guard(|| Communities::community_account(&Cid(id))));
		}
		let first = seen[0].clone();
		run.check(first.is_ok() && seen.iter().all(|x| *x == first), "account depends on more than the id", || json!({"id": id, "found": format!("{seen:?}")}));
		let Ok(a) = first else { return };
		if let Some(other) = all.lock().unwrap().insert(a.clone(), id) {
			run.fail("two communities share an account", json!({"ids": [other, id]}));
		}
		if i < 3 {
			run.sample(json!({"id": id, "account": format!("{a:?}")}));
		}
		let o: RuntimeOrigin = RawOrigin::<Rt>::new(Cid(id)).into();
		let r = guard(|| <AsSignedByCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok());
		run.check(r == Ok(Some(a.clone())), "acting as the community resolves to another account", || json!({"id": id, "found": format!("{r:?}")}));
		let r = guard(|| <AsSignedByStaticCommunity<Rt, Two> as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok());
		let want = (id == 2).then_some(a);
		run.check(r == Ok(want.clone()), "acting as one fixed community works for another", || json!({"id": id, "found": format!("{r:?}")}));
	});
	ext::restore(&s.map);
	for og in [Og::Root, Og::Nobody, Og::Signed(1), Og::Signed(9), Og::Acct(1), Og::Acct(2)] {
		run.states(1);
		run.traces(1);
		let r = guard(|| {
			let a = <AsSignedByCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(og)).is_err();
			let b = <AsSignedByStaticCommunity<Rt, Two> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(og)).is_err();
			// a refused origin is handed back as it came
			let back = <AsSignedByCommunity<Rt> as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(og)).err().map(|o| o.caller().clone());
			a && b && back == Some(origin(og).caller().clone())
		});
		run.check(r == Ok(true), "an origin that is no community acts as one", || json!(format!("{og:?} {:?}", matches!(og, Og::Acct(_)).then(|| account(og)))));
	}
}
