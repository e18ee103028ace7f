//! Filters over calls.
use crate::world::*;
use frame_support::traits::{Contains, EnsureOrigin, InstanceFilter};
use kreivo_runtime::{Runtime, RuntimeCall};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run};
use parity_scale_codec::Decode;
use shim_base::ext;

/// What each proxy type is for.
fn permits(kind: u8, pallet: &str, call: &str) -> bool {
	let wrapper = pallet == "Utility" || pallet == "Multisig";
	let asset = |names: &[&str]| pallet == "Assets" && names.contains(&call);
	match kind {
		0 => true,
		1 => pallet != "Balances" && pallet != "Assets",
		2 => wrapper || (pallet == "Proxy" && call == "reject_announcement"),
		3 => wrapper || pallet == "Assets",
		4 => {
			wrapper
				|| asset(&[
					"create",
					"start_destroy",
					"destroy_accounts",
					"destroy_approvals",
					"finish_destroy",
					"transfer_ownership",
					"set_team",
					"set_metadata",
					"clear_metadata",
				])
		}
		5 => wrapper || asset(&["mint", "burn", "freeze", "thaw", "freeze_asset", "thaw_asset"]),
		_ => wrapper || pallet == "CollatorSelection",
	}
}
/// Representatives of a call with other arguments: the last bytes of the all-zeros one changed.
fn variants(c: &RuntimeCall) -> Vec<RuntimeCall> {
	let bytes = parity_scale_codec::Encode::encode(c);
	let mut v = vec![c.clone()];
	for at in 2..bytes.len().min(40) {
		for x in [1u8, 4, 0xff] {
			let mut b = bytes.clone();
			b[at] = x;
			b.extend([0; 64]);
			if let Ok(c) = RuntimeCall::decode(&mut &b[..]) {
				v.push(c);
			}
		}
	}
	v
}
pub fn k03(run: Run) {
	type P = <Runtime as pallet_proxy::Config>::ProxyType;
	let kinds: Vec<(u8, P)> = (0..=255u8).filter_map(|n| P::decode(&mut &[n][..]).ok().map(|p| (n, p))).collect();
	run.check(kinds.len() == 7, "there are proxy types nobody decided about", || json!({"types": kinds.len()}));
	let calls = calls();
	run.info("calls", json!(calls.len()));
	par_for(calls.len(), 4, |i| {
		let (pallet, name, c) = &calls[i];
		for v in variants(c) {
			for (n, k) in &kinds {
				let got = guard(|| k.filter(&v));
				let want = permits(*n, pallet, name);
				run.check(got == Ok(want), if want { "a proxy may not make a call it is for" } else { "a proxy may make a call it is not for" }, || json!({"type": format!("{k:?}"), "pallet": pallet, "call": name}));
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}
	});
	for (_, a) in &kinds {
		for (_, b) in &kinds {
			let sup = a.is_superset(b);
			run.transitions(1);
			run.check(a != b || sup, "a type does not include itself", || json!({"type": format!("{a:?}")}));
			if sup {
				for (pallet, name, c) in &calls {
					run.check(!b.filter(c) || a.filter(c), "a type includes another that may do more", || json!({"type": format!("{a:?}"), "included": format!("{b:?}"), "pallet": pallet, "call": name}));
					run.transitions(1);
				}
			}
		}
	}
	// the order decided for this chain
	let include = |a: u8, b: u8| a == b || a == 0 || matches!((a, b), (3, 4) | (3, 5) | (1, 6));
	for (n, a) in &kinds {
		for (m, b) in &kinds {
			run.check(a.is_superset(b) == include(*n, *m), "the order of the types differs", || json!({"type": format!("{a:?}"), "included": format!("{b:?}")}));
		}
	}
	// what a proxy gets by default is everything
	run.check(P::default() == kinds[0].1, "the default type is another", || json!({"default": format!("{:?}", P::default())}));
	run.sample(json!({"type": "Collator", "pallet": calls[0].0, "call": calls[0].1, "permitted": permits(6, &calls[0].0, &calls[0].1)}));
	run.sample(json!({"type": "AssetManager", "pallet": "Assets", "call": "mint", "permitted": true}));
	run.finish()
}

pub fn k10(run: Run) {
	type C = Runtime;
	let calls = calls();
	par_for(calls.len(), 4, |i| {
		let (pallet, name, c) = &calls[i];
		for v in variants(c) {
			let got = guard(|| <<C as pallet_contracts::Config>::CallFilter as Contains<RuntimeCall>>::contains(&v));
			let want = pallet == "Balances" && name == "transfer_allow_death";
			run.check(got == Ok(want), if want { "contracts cannot transfer" } else { "contracts can make another call" }, || json!({"pallet": pallet, "call": name}));
			run.states(1);
			run.transitions(1);
			run.traces(1);
		}
	});
	let map = chain_with_communities();
	let mut who = everybody();
	for c in 0..=u16::MAX {
		who.push(Who::Community(c, 0));
	}
	par_for(who.len(), 256, |i| {
		if i % 256 == 0 || ext::get(b"here").is_none() {
			ext::restore(&map);
			ext::put(b"here", vec![1]);
		}
		let w = &who[i];
		let upload = guard(|| <<C as pallet_contracts::Config>::UploadOrigin as EnsureOrigin<_>>::try_origin(w.origin()).ok());
		let want = (*w == Who::Root).then(treasury);
		run.check(upload == Ok(want.clone()), "code is uploaded by somebody else", || json!({"who": w.name(), "got": format!("{upload:?}")}));
		let inst = guard(|| <<C as pallet_contracts::Config>::InstantiateOrigin as EnsureOrigin<_>>::try_origin(w.origin()).ok());
		let want = match w {
			Who::Community(c @ 1..=2, _) => Some(community_account(*c)),
			_ => want,
		};
		run.check(inst == Ok(want), "contracts are instantiated by somebody else", || json!({"who": w.name(), "got": format!("{inst:?}")}));
		run.states(1);
		run.transitions(2);
		run.traces(1);
	});
	run.sample(json!({"pallet": calls[5].0, "call": calls[5].1, "permitted": false}));
	run.sample(json!({"who": "Community(2)", "instantiates_as": enc(&community_account(2))}));
	run.info("calls", json!(calls.len()));
	run.finish()
}
