//! K33: calls are charged for the work they ask for and fit into a block.
use crate::world::*;
use frame_support::dispatch::{DispatchClass, Dispatchable, GetDispatchInfo, Pays};
use frame_support::pallet_prelude::Get;
use frame_support::traits::fungibles;
use frame_support::weights::Weight;
use kreivo_runtime::{Assets, FungibleAssetLocation, Runtime, RuntimeCall, RuntimeOrigin, System};
use mc_core::serde_json::json;
use parity_scale_codec::Encode;
use mc_core::{guard, par_for, Run, Tallier};
use pallet_communities::types::DecisionMethod;
use pallet_communities::weights::WeightInfo as _;
use pallet_communities_manager::weights::WeightInfo as _;
use pallet_payments::weights::WeightInfo as _;
use shim_base::ext;
use sp_runtime::MultiAddress;

type Instance2 = pallet_referenda::Instance2;

type Communities = <Runtime as pallet_communities::Config>::WeightInfo;
type Manager = <Runtime as pallet_communities_manager::Config>::WeightInfo;
type Payments = <Runtime as pallet_payments::Config>::WeightInfo;

/// What was measured for a call of the chain's own pallets; of those whose weight depends on arguments, the least.
fn measured(pallet: &str, call: &str) -> Option<Weight> {
	Some(match (pallet, call) {
		("Payments", "pay") => Payments::pay(0),
		("Payments", "release") => Payments::release(),
		("Payments", "request_refund") => Payments::request_refund(),
		("Payments", "accept_and_pay") => Payments::accept_and_pay(),
		("Payments", "cancel") => Payments::cancel(),
		("Payments", "dispute_refund") => Payments::dispute_refund(),
		("Payments", "request_payment") => Payments::request_payment(),
		("Payments", "resolve_dispute") => Payments::resolve_dispute(),
		("Communities", "create") => Communities::create(),
		("Communities", "set_admin_origin") => Communities::set_admin_origin(),
		("Communities", "add_member") => Communities::add_member(),
		("Communities", "remove_member") => Communities::remove_member(),
		("Communities", "promote") => Communities::promote(),
		("Communities", "demote") => Communities::demote(),
		("Communities", "set_decision_method") => Communities::set_decision_method(),
		("Communities", "vote") => Communities::vote(),
		("Communities", "remove_vote") => Communities::remove_vote(),
		("Communities", "unlock") => Communities::unlock(),
		("Communities", "dispatch_as_account") => Communities::dispatch_as_account(),
		("CommunitiesManager", "register") => Manager::register(),
		("CommunitiesManager", "create_memberships") => Manager::create_memberships(0),
		_ => return None,
	})
}
fn show(w: Weight) -> String {
	format!("{} ps, {} B", w.ref_time(), w.proof_size())
}
fn as_community(c: RuntimeCall) -> RuntimeCall {
	pallet_communities::Call::<Runtime>::new_call_variant_dispatch_as_account(Box::new(c)).into()
}

/// A chain on which each of the chain's own calls may succeed, and the calls.
fn ready() -> (ext::Map, Vec<(&'static str, &'static str, Who, RuntimeCall)>) {
	type Com = pallet_communities::Call<Runtime>;
	type Man = pallet_communities_manager::Call<Runtime>;
	type Pay = pallet_payments::Call<Runtime>;
	type Ref = pallet_referenda::Call<Runtime, Instance2>;
	const A: FungibleAssetLocation = FungibleAssetLocation::Here(1);
	ext::restore(&chain_with_communities());
	for a in [1, 2].map(acc).into_iter().chain([community_account(1)]) {
		<Assets as fungibles::Mutate<Acc>>::mint_into(A, &a, 1 << 60).expect("mints");
	}
	for (m, who) in [(10, acc(1)), (11, acc(2))] {
		join(1, m, &who);
	}
	mint_membership(0, 12, &community_account(1));
	let poll = |n: u8| {
		let remark: RuntimeCall = frame_system::Call::<Runtime>::remark { remark: vec![n] }.into();
		let index = pallet_referenda::ReferendumCount::<Runtime, Instance2>::get();
		let proposal = frame_support::traits::Bounded::Inline(frame_support::BoundedVec::try_from(remark.encode()).expect("short"));
		dispatch(Ref::submit { proposal_origin: Box::new(Who::Community(1, 0).caller()), proposal, enactment_moment: frame_support::traits::schedule::DispatchTime::After(0) }, &Who::Signed(acc(1))).expect("submits");
		dispatch(Ref::place_decision_deposit { index }, &Who::Signed(acc(1))).expect("decides");
		index
	};
	let vote = |m: u32, p: u32| Com::new_call_variant_vote(m, p, pallet_communities::types::Vote::Standard(true));
	dispatch(Com::new_call_variant_set_decision_method(1, DecisionMethod::NativeToken), &Who::Community(1, 0)).expect("decides by tokens");
	let old = poll(0);
	let token = |p: u32| Com::new_call_variant_vote(10, p, pallet_communities::types::Vote::NativeBalance(true, 5));
	run_to(3);
	dispatch(token(old), &Who::Signed(acc(1))).expect("votes");
	dispatch(Ref::cancel { index: old }, &Who::Root).expect("cancels");
	dispatch(Com::new_call_variant_set_decision_method(1, DecisionMethod::Membership), &Who::Community(1, 0)).expect("decides by memberships");
	let open = poll(1);
	run_to(6);
	dispatch(vote(11, open), &Who::Signed(acc(2))).expect("votes");
	let (from, to) = (Who::Signed(acc(1)), Who::Signed(acc(2)));
	let mut index = 2;
	let mut new = |asked: bool| {
		index += 1;
		System::set_extrinsic_index(index);
		match asked {
			true => dispatch(Pay::new_call_variant_request_payment(MultiAddress::Id(acc(1)), A, 500), &to),
			false => dispatch(Pay::new_call_variant_pay(MultiAddress::Id(acc(2)), A, 500, None), &from),
		}
		.expect("pays");
		virto_common::PaymentId::from((System::block_number(), index, acc(2).encode().as_slice()))
	};
	let (paid, asked, doubted, disputed) = (new(false), new(true), new(false), new(false));
	for p in [doubted, disputed] {
		dispatch(Pay::new_call_variant_request_refund(p), &from).expect("asks back");
	}
	dispatch(Pay::new_call_variant_dispute_refund(disputed), &to).expect("disputes");
	System::set_extrinsic_index(20);
	System::reset_events();
	let name = |n: u16| frame_support::BoundedVec::try_from(format!("C{n}").into_bytes()).expect("short");
	let verdict = pallet_payments::DisputeResult { in_favor_of: pallet_payments::Role::Sender, percent_beneficiary: sp_runtime::Percent::from_percent(40) };
	let us = || Who::Community(1, 0);
	let list: Vec<(&str, &str, Who, RuntimeCall)> = vec![
		("Payments", "pay", from.clone(), Pay::new_call_variant_pay(MultiAddress::Id(acc(2)), A, 500, None).into()),
		("Payments", "request_payment", to.clone(), Pay::new_call_variant_request_payment(MultiAddress::Id(acc(1)), A, 500).into()),
		("Payments", "release", from.clone(), Pay::new_call_variant_release(paid).into()),
		("Payments", "cancel", to.clone(), Pay::new_call_variant_cancel(paid).into()),
		("Payments", "cancel", to.clone(), Pay::new_call_variant_cancel(asked).into()),
		("Payments", "request_refund", from.clone(), Pay::new_call_variant_request_refund(paid).into()),
		("Payments", "accept_and_pay", from.clone(), Pay::new_call_variant_accept_and_pay(asked).into()),
		("Payments", "dispute_refund", to.clone(), Pay::new_call_variant_dispute_refund(doubted).into()),
		("Payments", "resolve_dispute", Who::Root, Pay::new_call_variant_resolve_dispute(disputed, verdict).into()),
		("CommunitiesManager", "register", Who::Root, Man::new_call_variant_register(9, name(9), MultiAddress::Id(acc(7)), None, None).into()),
		("CommunitiesManager", "register", Who::Signed(acc(1)), Man::new_call_variant_register(8, name(8), MultiAddress::Id(acc(7)), None, None).into()),
		("CommunitiesManager", "create_memberships", Who::Root, Man::new_call_variant_create_memberships(3, 500, 5).into()),
		("Communities", "set_admin_origin", Who::Signed(acc(ADMIN[1])), Com::new_call_variant_set_admin_origin(Who::Signed(acc(5)).caller()).into()),
		("Communities", "add_member", us(), Com::new_call_variant_add_member(MultiAddress::Id(acc(3))).into()),
		("Communities", "remove_member", us(), Com::new_call_variant_remove_member(MultiAddress::Id(acc(2)), 11).into()),
		("Communities", "promote", us(), Com::new_call_variant_promote(11).into()),
		("Communities", "demote", us(), Com::new_call_variant_demote(11).into()),
		("Communities", "set_decision_method", us(), Com::new_call_variant_set_decision_method(1, DecisionMethod::Rank).into()),
		("Communities", "vote", from.clone(), vote(10, open).into()),
		("Communities", "vote", to.clone(), vote(11, open).into()),
		("Communities", "remove_vote", to.clone(), Com::new_call_variant_remove_vote(11, open).into()),
		("Communities", "unlock", from.clone(), Com::new_call_variant_unlock(old).into()),
	];
	(ext::snapshot(), list)
}
/// What is given back once the work is done leaves a price for what was done.
fn after_the_fact(run: &Run, tally: &Tallier) {
	let (map, list) = ready();
	let (n, length) = (list.len(), if DEEP { 3u32 } else { 2 });
	par_for(n.pow(length), 16, |i| {
		ext::restore(&map);
		for p in 0..length {
			let (pallet, call, who, c) = &list[i / n.pow(p) % n];
			let info = c.get_dispatch_info();
			let least = measured(pallet, call).expect("own");
			run.states(1);
			run.transitions(1);
			let Ok(Ok(post)) = guard(|| c.clone().dispatch(who.origin())) else { continue };
			run.traces(1);
			tally.hit("done, as declared");
			tally.hit(Box::leak(format!("done: {call}").into_boxed_str()));
			let case = || json!({"pallet": pallet, "call": call, "history": i, "declared": show(info.weight), "afterwards": format!("{post:?}"), "measured": show(least)});
			run.check(post.pays_fee == Pays::Yes, "a call is free of charge once it succeeded", case);
			run.check(post.calc_actual_weight(&info).all_gte(least), "a call is charged less than was measured for it once it succeeded", case);
		}
	});
	for (_, call, ..) in &list {
		if tally.get(&format!("done: {call}")) == 0 && !run.failed() {
			eprintln!("'{call}' never succeeded: error of the check");
			std::process::exit(3);
		}
	}
	// a community acts: what the act turns out to have taken, and the wrapping
	type Batch = pallet_utility::Call<Runtime>;
	let remark = |n: u8| -> RuntimeCall { frame_system::Call::<Runtime>::remark { remark: vec![n] }.into() };
	let mut acts: Vec<RuntimeCall> = list.iter().map(|x| x.3.clone()).chain([remark(0)]).collect();
	for n in 0..=4u8 {
		acts.push(Batch::new_call_variant_batch((0..n).map(remark).collect()).into());
		acts.push(Batch::new_call_variant_batch_all((0..n).map(remark).collect()).into());
		acts.push(Batch::new_call_variant_force_batch((0..n).map(|i| if i % 2 == 0 { remark(i) } else { as_community(remark(i)) }).collect()).into());
		acts.push(Batch::new_call_variant_batch((0..n).map(|i| pallet_communities::Call::<Runtime>::new_call_variant_promote(99 + i as u32).into()).collect()).into());
	}
	let overhead = Communities::dispatch_as_account();
	let whole = |c: RuntimeCall, who: RuntimeOrigin| -> Option<(Weight, Weight, Pays)> {
		ext::restore(&map);
		let info = c.get_dispatch_info();
		let post = guard(|| c.dispatch(who)).ok()?.ok()?;
		Some((info.weight, post.calc_actual_weight(&info), post.pays_fee))
	};
	for who in [Who::Community(1, 0), Who::Signed(community_account(1)), Who::Signed(acc(ADMIN[1]))] {
		for act in &acts {
			let mut act = act.clone();
			for depth in 1..=4 {
				let us = Who::Signed(community_account(1));
				let inner = whole(act.clone(), us.origin());
				act = as_community(act);
				let outer = whole(act.clone(), if depth == 1 { who.origin() } else { us.origin() });
				run.states(1);
				run.transitions(1);
				let (Some(inner), Some(outer)) = (inner, outer) else { continue };
				run.traces(1);
				tally.hit(if inner.1 == inner.0 { "act of a community, as declared" } else { "act of a community, measured" });
				let case = || json!({"act": format!("{act:?}").chars().take(300).collect::<String>(), "depth": depth, "by": who.name(), "declared": show(outer.0), "afterwards": show(outer.1), "act took": show(inner.1), "measured for the wrapping": show(overhead)});
				run.check(outer.1.all_gte(inner.1.saturating_add(overhead)), "acting as a community turns out cheaper than the act", case);
				run.check(outer.1.all_lte(outer.0), "a call turns out to have taken more than declared", case);
				run.check(inner.2 == Pays::No || outer.2 == Pays::Yes, "acting as a community is free of charge", case);
			}
		}
	}
}

pub fn k33(run: Run) {
	let tally = Tallier::default();
	let Ok(limits) = guard(<<Runtime as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get) else {
		run.states(1);
		run.transitions(1);
		run.fail("the limits of a block contradict each other", json!({}));
		run.finish();
	};
	let fits = |c: &RuntimeCall| {
		let i = c.get_dispatch_info();
		limits.get(i.class).max_extrinsic.map_or(true, |m| i.weight.all_lte(m))
	};
	// 1. every call costs at least what was measured for it
	let list = calls();
	for (pallet, call, c) in &list {
		let Some(w) = measured(pallet, call) else { continue };
		let got = c.get_dispatch_info();
		let case = || json!({"pallet": pallet, "call": call, "charged": show(got.weight), "measured": show(w)});
		run.states(1);
		run.transitions(1);
		run.traces(1);
		tally.hit("own call");
		run.check(w.ref_time() > 0 && got.weight.ref_time() > 0, "a call is free", case);
		run.check(got.weight.all_gte(w), "a call is charged less than was measured for it", case);
		run.check(got.class == DispatchClass::Normal || call == "dispatch_as_account", "an ordinary call takes room kept for the upkeep of the chain", case);
		run.check(got.pays_fee == frame_support::dispatch::Pays::Yes, "a call is free of charge", case);
		run.check(fits(c), "a call does not fit into a block", case);
	}
	// 2. work that grows is charged as it grows
	let mut last = Weight::zero();
	for n in 0..=50usize {
		let Ok(remark) = vec![7u8; n].try_into() else {
			run.fail("a remark that was allowed is too long", json!({"bytes": n}));
			continue;
		};
		let c: RuntimeCall = pallet_payments::Call::<Runtime>::new_call_variant_pay(MultiAddress::Id(acc(1)), kreivo_runtime::FungibleAssetLocation::Here(1), 5, Some(remark)).into();
		let got = c.get_dispatch_info().weight;
		let case = || json!({"bytes of remark": n, "charged": show(got), "measured": show(Payments::pay(n as u32))});
		run.states(1);
		run.transitions(1);
		run.traces(1);
		run.check(got.all_gte(Payments::pay(n as u32)), "a longer remark is charged as a short one", case);
		run.check(got.all_gte(last) && (n == 0 || got.ref_time() > last.ref_time()), "a longer remark costs no more", case);
		run.check(fits(&c), "a payment does not fit into a block", case);
		last = got;
		tally.hit("remark");
	}
	let mut last = Weight::zero();
	for n in 0..=u16::MAX {
		let c: RuntimeCall = pallet_communities_manager::Call::<Runtime>::new_call_variant_create_memberships(n, 1u32.into(), 5).into();
		let got = c.get_dispatch_info().weight;
		let case = || json!({"memberships": n, "charged": show(got), "measured": show(Manager::create_memberships(n.into()))});
		run.states(1);
		run.transitions(1);
		run.traces(1);
		if n <= 1024 {
			run.check(got.all_gte(Manager::create_memberships(n.into())), "many memberships are charged as few", case);
			run.check(n == 0 || (got.ref_time() > last.ref_time() && got.proof_size() > last.proof_size()), "more memberships cost no more", case);
			run.check(fits(&c), "memberships that may be created at once do not fit into a block", case);
			tally.hit("memberships");
		}
		last = got;
	}
	// 3. acting as a community costs the act and the wrapping, however often it is wrapped
	let overhead = Communities::dispatch_as_account();
	par_for(list.len(), 1, |i| {
		let (pallet, call, c) = &list[i];
		let mut c = c.clone();
		for depth in 1..=6 {
			let inner = c.get_dispatch_info();
			c = as_community(c);
			let got = c.get_dispatch_info();
			let case = || json!({"pallet": pallet, "call": call, "depth": depth, "charged": show(got.weight), "inside": show(inner.weight), "measured": show(overhead)});
			run.states(1);
			run.transitions(1);
			run.traces(1);
			run.check(got.weight.all_gte(inner.weight.saturating_add(overhead)), "acting as a community is cheaper than the act", case);
			run.check(got.class == inner.class, "acting as a community changes the class of the call", case);
			tally.hit(match got.class {
				DispatchClass::Normal => "ordinary act",
				DispatchClass::Operational => "operational act",
				DispatchClass::Mandatory => "mandatory act",
			});
		}
	});
	// 4. whatever ordinary calls have used, operational ones find what is kept for them
	let parts = if DEEP { 256u64 } else { 64 };
	let (normal, operational) = (limits.get(DispatchClass::Normal), limits.get(DispatchClass::Operational));
	let portion = |n: u64| Weight::from_parts((limits.max_block.ref_time() as u128 * n as u128 / parts as u128) as u64, (limits.max_block.proof_size() as u128 * n as u128 / parts as u128) as u64);
	// as the library admits calls: within the class and, but for what is reserved, within the block
	let admits = |class: DispatchClass, used: (Weight, Weight), w: Weight| {
		let l = limits.get(class);
		let w = w.saturating_add(l.base_extrinsic);
		let mine = if class == DispatchClass::Normal { used.0 } else { used.1 };
		let all = limits.base_block.saturating_add(used.0).saturating_add(used.1).saturating_add(w);
		if l.max_extrinsic.is_some_and(|m| w.saturating_sub(l.base_extrinsic).any_gt(m)) || l.max_total.is_some_and(|m| mine.saturating_add(w).any_gt(m)) {
			return false;
		}
		if all.any_gt(limits.max_block) {
			return match l.reserved {
				Some(r) => mine.saturating_add(w).all_lte(r),
				None => true,
			};
		}
		true
	};
	let quarter = limits.max_block.saturating_div(4);
	run.check(normal.base_extrinsic.ref_time() > 0 && operational.base_extrinsic.ref_time() > 0, "handling an extrinsic is free", || json!({}));
	run.check(normal.max_total.is_some_and(|m| m.all_lte(limits.max_block.saturating_sub(quarter))), "ordinary calls may use what is kept for others", || json!({"limit": format!("{:?}", normal.max_total), "block": format!("{:?}", limits.max_block)}));
	for a in 0..=parts {
		for w in 1..=parts {
			let call = portion(w).saturating_sub(normal.base_extrinsic);
			let went = admits(DispatchClass::Normal, (portion(a), Weight::zero()), call);
			let case = || json!({"ordinary calls used": show(portion(a)), "next": show(call)});
			run.states(1);
			run.transitions(1);
			run.traces(1);
			run.check(!went || portion(a + w).all_lte(limits.max_block.saturating_sub(quarter)), "ordinary calls fill the block", case);
			let used = if went { portion(a + w) } else { portion(a) };
			if used.all_lte(limits.max_block.saturating_sub(quarter)) {
				for o in 0..=parts / 4 {
					let share = portion(o).saturating_sub(operational.base_extrinsic);
					run.transitions(1);
					run.check(admits(DispatchClass::Operational, (used, Weight::zero()), share), "an operational call finds no room", || json!({"ordinary calls used": show(used), "operational": show(share)}));
					tally.hit("operational call in a busy block");
				}
			}
		}
	}
	// 5. the same in bytes: ordinary calls leave a quarter of the block's length, and a whole runtime finds room
	let length = <<Runtime as frame_system::Config>::BlockLength as Get<frame_system::limits::BlockLength>>::get();
	let [ordinary, upkeep, inherent] = length.max.map(|m| m as u64);
	let case = || json!({"bytes for ordinary calls": ordinary, "for operational": upkeep, "for mandatory": inherent});
	run.check(ordinary * 4 <= upkeep * 3 && ordinary * 4 <= inherent * 3, "ordinary calls may take the whole length of a block", case);
	run.check(upkeep >= 3 << 20, "a new runtime finds no room in a block", case);
	for (_, _, c) in &list {
		let signed = c.encoded_size() as u64 + 256;
		run.states(1);
		run.transitions(1);
		run.check(signed <= ordinary, "a call is too long for a block", || json!({"bytes": signed, "allowed": ordinary}));
	}
	after_the_fact(&run, &tally);
	run.info("steps_by_kind", tally.json());
	run.sample(json!({"call": "dispatch_as_account(dispatch_as_account(Payments::release))", "charged": show(as_community(as_community(list.iter().find(|x| x.0 == "Payments" && x.1 == "release").expect("release").2.clone())).get_dispatch_info().weight)}));
	for k in ["own call", "remark", "memberships", "ordinary act", "operational act", "operational call in a busy block", "done, as declared", "act of a community, measured", "act of a community, as declared"] {
		if tally.get(k) == 0 && !run.failed() {
			eprintln!("'{k}' never happened: error of the check");
			std::process::exit(3);
		}
	}
	run.finish()
}
