//! Decisions from proposal to effect, on the runtime as it is configured.
use crate::world::*;
use frame_support::traits::schedule::DispatchTime;
use frame_support::traits::{fungible::Inspect as _, Bounded, RankedMembers, StorePreimage};
use kreivo_runtime::{Balances, CommunityMemberships, KreivoCollective, Preimage, Runtime, RuntimeCall, RuntimeEvent, System};
use mc_core::serde_json::{json, Value};
use mc_core::{guard, par_for, Run, Tallier};
use pallet_communities::types::DecisionMethod;
use pallet_referenda::{Instance1, Instance2, ReferendumInfo, ReferendumInfoFor, TracksInfo};
use shim_base::ext;
use sp_runtime::MultiAddress;

fn bound(c: RuntimeCall) -> Bounded<RuntimeCall, <Runtime as frame_system::Config>::Hashing> {
	Preimage::bound(c).expect("bounds")
}
fn id(a: &Acc) -> MultiAddress<Acc, u16> {
	MultiAddress::Id(a.clone())
}

/// Communities decide for themselves.
pub fn k21(run: Run) {
	type Com = pallet_communities::Call<Runtime>;
	type Ref = pallet_referenda::Call<Runtime, Instance2>;
	let members: Vec<(u16, u32, Acc)> = vec![(1, 11, acc(0x31)), (1, 12, acc(0x32)), (1, 13, acc(0x33)), (2, 21, acc(0x34)), (2, 22, acc(0x35))];
	ext::restore(&chain_with_communities());
	for (c, m, who) in &members {
		join(*c, *m, who);
	}
	let map = ext::snapshot();
	let calls: Vec<(&str, RuntimeCall)> = vec![
		("spend", Com::new_call_variant_dispatch_as_account(Box::new(pallet_balances::Call::<Runtime>::transfer_allow_death { dest: id(&acc(9)), value: 7 * UNIT }.into())).into()),
		("spend directly", pallet_balances::Call::<Runtime>::transfer_allow_death { dest: id(&acc(9)), value: 7 * UNIT }.into()),
		("decide by rank in 1", Com::new_call_variant_set_decision_method(1, DecisionMethod::Rank).into()),
		("decide by rank in 2", Com::new_call_variant_set_decision_method(2, DecisionMethod::Rank).into()),
		("rule the chain", pallet_balances::Call::<Runtime>::force_set_balance { who: id(&acc(9)), new_free: 7 * UNIT }.into()),
	];
	let submitters = [Who::Signed(acc(0x31)), Who::Signed(acc(0x34)), Who::Signed(acc(1)), Who::Signed(community_account(1)), Who::Community(1, 0), Who::Root, Who::Nobody];
	let origins = [Who::Community(1, 0), Who::Community(2, 0), Who::Community(4, 0), Who::Root, Who::Signed(acc(0x31)), Who::Signed(community_account(1)), Who::Killer];
	#[derive(Clone, Copy, Debug, PartialEq)]
	enum Twist {
		None,
		NoDeposit,
		LateVotes(u32),
		StoppedBy(u8),
	}
	let mut twists = vec![Twist::None, Twist::NoDeposit];
	twists.extend([1, 50, 200, 400].map(Twist::LateVotes));
	twists.extend([0, 1, 2, 3, 4].map(Twist::StoppedBy));
	let stoppers = [Who::Root, Who::Canceller, Who::Killer, Who::Community(1, 0), Who::Signed(acc(ADMIN[1]))];
	let votes = 3usize.pow(5);
	let mut heads = vec![];
	for s in 0..submitters.len() {
		for o in 0..origins.len() {
			for c in 0..calls.len() {
				for t in &twists {
					heads.push((s, o, c, *t));
				}
			}
		}
	}
	let tally = Tallier::default();
	// money of 1, of 2, of the recipient, times the method of 1 and of 2 was set
	let look = || {
		let method = |c: u16| System::events().iter().filter(|e| matches!(&e.event, RuntimeEvent::Communities(pallet_communities::Event::DecisionMethodSet { id }) if *id == c)).count();
		(Balances::total_balance(&community_account(1)), Balances::total_balance(&community_account(2)), Balances::total_balance(&acc(9)), method(1), method(2))
	};
	ext::restore(&map);
	let before = look();
	par_for(heads.len(), 1, |h| {
		let (s, o, c, twist) = heads[h];
		let (by, origin, call) = (&submitters[s], &origins[o], &calls[c]);
		let case = || json!({"submitted by": by.name(), "decided as": origin.name(), "proposal": call.0, "twist": format!("{twist:?}")});
		let community = match origin {
			Who::Community(c, _) if *c <= 2 => Some(*c),
			_ => None,
		};
		let may = match (by, community) {
			(Who::Root, Some(_)) => true,
			(Who::Signed(a), Some(c)) => members.iter().any(|m| m.0 == c && m.2 == *a),
			_ => false,
		};
		ext::restore(&map);
		let submitted = guard(|| dispatch(Ref::submit { proposal_origin: Box::new(origin.caller()), proposal: bound(call.1.clone()), enactment_moment: DispatchTime::After(1) }, by).is_ok());
		run.states(1);
		run.transitions(1);
		run.traces(1);
		run.check(submitted == Ok(may), if may { "a member cannot propose" } else { "a proposal is accepted that should not" }, case);
		if submitted != Ok(true) || !may {
			return;
		}
		let Some(community) = community else { return };
		if twist != Twist::NoDeposit {
			let r = dispatch(Ref::place_decision_deposit { index: 0 }, &Who::Signed(acc(1)));
			run.check(r.is_ok(), "a proposal cannot be put to the vote", case);
		}
		let start = ext::snapshot();
		for w in 0..votes {
			ext::restore(&start);
			let word: Vec<usize> = (0..5).map(|i| w / 3usize.pow(i as u32) % 3).collect();
			let full = || -> Value { json!({"case": case(), "votes (absent, aye, nay)": format!("{word:?}")}) };
			if let Twist::LateVotes(n) = twist {
				run_to(1 + n);
			}
			let open = twist != Twist::LateVotes(400);
			let (mut ayes, mut nays) = (0u32, 0u32);
			for (i, (c, m, who)) in members.iter().enumerate() {
				if word[i] == 0 {
					continue;
				}
				let aye = word[i] == 1;
				let r = guard(|| dispatch(Com::new_call_variant_vote(*m, 0, pallet_communities::types::Vote::Standard(aye)), &Who::Signed(who.clone())).is_ok());
				let want = open && *c == community;
				run.check(r == Ok(want), if want { "a member's vote is refused" } else { "a vote counts that should not" }, || json!({"voter": enc(who), "in": full()}));
				if want {
					if aye {
						ayes += 1
					} else {
						nays += 1
					}
				}
				// nobody votes with what belongs to another
				let r = guard(|| dispatch(Com::new_call_variant_vote(*m, 0, pallet_communities::types::Vote::Standard(aye)), &Who::Signed(acc(1))).is_ok());
				run.check(r == Ok(false), "somebody votes with another's membership", full);
				run.transitions(2);
			}
			let mut stopped = false;
			if let Twist::StoppedBy(n) = twist {
				for how in [Ref::cancel { index: 0 }, Ref::kill { index: 0 }] {
					let r = guard(|| dispatch(how.clone(), &stoppers[n as usize]).is_ok());
					let want = stoppers[n as usize] == Who::Root && !stopped;
					run.check(r == Ok(want), "a proposal is stopped by the wrong party", full);
					stopped |= want;
				}
			}
			let passes = !stopped && open && twist != Twist::NoDeposit && ayes > 0 && ayes >= nays;
			let r = guard(|| run_to(700));
			run.check(r.is_ok(), "time does not pass", full);
			let approved = matches!(ReferendumInfoFor::<Runtime, Instance2>::get(0), Some(ReferendumInfo::Approved(..)));
			run.check(approved == passes, if passes { "a decision is not taken" } else { "a decision is taken that was not" }, || json!({"in": full(), "ayes": ayes, "nays": nays}));
			let mut want = before.clone();
			if passes {
				match (call.0, community) {
					("spend", 1) => {
						want.0 -= 7 * UNIT;
						want.2 += 7 * UNIT;
					}
					("spend", 2) => {
						want.1 -= 7 * UNIT;
						want.2 += 7 * UNIT;
					}
					("decide by rank in 1", 1) => want.3 += 1,
					("decide by rank in 2", 2) => want.4 += 1,
					_ => {}
				}
			}
			let got = look();
			run.check(got == want, "the effect is not the one decided", || json!({"in": full(), "got": format!("{got:?}"), "expected": format!("{want:?}")}));
			tally.hit(if want != before { "carried out" } else if passes { "decided without effect" } else { "not decided" });
			run.states(1);
			run.transitions(3);
			run.traces(1);
		}
	});
	run.info("outcomes", tally.json());
	run.info("proposals", json!(heads.len()));
	run.sample(json!({"submitted by": submitters[0].name(), "decided as": origins[0].name(), "proposal": "spend", "votes": [1, 1, 2], "outcome": "the community's account pays"}));
	run.sample(json!({"submitted by": submitters[1].name(), "decided as": origins[0].name(), "outcome": "refused"}));
	if !run.failed() && (tally.get("carried out") == 0 || tally.get("not decided") == 0) {
		eprintln!("nothing was decided: error of the check");
		std::process::exit(3);
	}
	run.finish()
}

/// All communities decide for the chain.
pub fn k22(run: Run) {
	type Ref = pallet_referenda::Call<Runtime, Instance1>;
	type Ranks = pallet_ranked_collective::Call<Runtime, pallet_ranked_collective::Instance1>;
	type Tr = <Runtime as pallet_referenda::Config<Instance1>>::Tracks;
	ext::restore(&chain_with_communities());
	let map = ext::snapshot();
	let longest = <Tr as TracksInfo<u128, u32>>::tracks().map(|t| t.info.prepare_period + t.info.decision_period + t.info.confirm_period).max().expect("tracks") + 10;
	let proposals: Vec<(&str, RuntimeCall)> = vec![
		("memberships", pallet_communities_manager::Call::<Runtime>::new_call_variant_create_memberships(2, 100, 5).into()),
		("cancel", Ref::cancel { index: 1 }.into()),
		("kill", Ref::kill { index: 1 }.into()),
		("promote", Ranks::promote_member { who: id(&community_account(2)) }.into()),
	];
	let origins = [Who::Root, Who::Canceller, Who::Killer, Who::CreateMemberships, Who::Signed(acc(1)), Who::Community(1, 0), Who::Nobody];
	let submitters = [Who::Signed(acc(1)), Who::Signed(community_account(1)), Who::Signed(acc(0x77)), Who::Root, Who::Community(1, 0)];
	let tally = Tallier::default();
	let rank = |c: u16| KreivoCollective::rank_of(&community_account(c));
	for by in &submitters {
		for origin in &origins {
			for p in &proposals {
				ext::restore(&map);
				let r = guard(|| dispatch(Ref::submit { proposal_origin: Box::new(origin.caller()), proposal: bound(p.1.clone()), enactment_moment: DispatchTime::After(1) }, by).is_ok());
				// anyone with funds for the deposit proposes, and only for decisions the chain knows
				let want = matches!(by, Who::Signed(a) if *a != acc(0x77)) && matches!(origin, Who::Root | Who::Canceller | Who::Killer | Who::CreateMemberships);
				run.check(r == Ok(want), if want { "a proposal is refused" } else { "a proposal is accepted that should not" }, || json!({"by": by.name(), "decided as": origin.name()}));
				run.states(1);
				run.transitions(1);
				run.traces(1);
			}
		}
	}
	let n = 4usize.pow(3);
	par_for(n * 4 * proposals.len(), 1, |k| {
		let ranks: Vec<u16> = (0..3).map(|i| (k % n / 4usize.pow(i) % 4) as u16).collect();
		let origin = &origins[k / n % 4];
		let proposal = &proposals[k / n / 4];
		ext::restore(&map);
		for (i, r) in ranks.iter().enumerate() {
			for _ in 0..*r {
				dispatch(Ranks::promote_member { who: id(&community_account(i as u16 + 1)) }, &Who::Root).expect("promotes");
			}
		}
		let case = || json!({"ranks": format!("{ranks:?}"), "decided as": origin.name(), "proposal": proposal.0});
		let r = dispatch(Ref::submit { proposal_origin: Box::new(origin.caller()), proposal: bound(proposal.1.clone()), enactment_moment: DispatchTime::At(longest + 1_000) }, &Who::Signed(acc(1)));
		run.check(r.is_ok(), "a proposal is refused", case);
		let r = dispatch(Ref::place_decision_deposit { index: 0 }, &Who::Signed(acc(2)));
		run.check(r.is_ok(), "a proposal cannot be put to the vote", case);
		let start = ext::snapshot();
		for w in 0..27usize {
			ext::restore(&start);
			let word: Vec<usize> = (0..3).map(|i| w / 3usize.pow(i as u32) % 3).collect();
			let full = || json!({"case": case(), "votes (absent, aye, nay)": format!("{word:?}")});
			let (mut bare, mut ayes, mut nays) = (0u64, 0u64, 0u64);
			for i in 0..3usize {
				if word[i] == 0 {
					continue;
				}
				let aye = word[i] == 1;
				let who = Who::Signed(community_account(i as u16 + 1));
				let r = guard(|| dispatch(Ranks::vote { poll: 0, aye }, &who).is_ok());
				run.check(r == Ok(ranks[i] > 0), if ranks[i] > 0 { "a community cannot vote" } else { "a community without rank votes" }, full);
				if ranks[i] > 0 {
					if aye {
						bare += 1;
						ayes += ranks[i] as u64;
					} else {
						nays += ranks[i] as u64;
					}
				}
				run.transitions(1);
			}
			for other in [Who::Signed(acc(1)), Who::Root, Who::Community(1, 0)] {
				run.check(guard(|| dispatch(Ranks::vote { poll: 0, aye: true }, &other).is_ok()) == Ok(false), "somebody else votes", full);
				run.transitions(1);
			}
			let seats = ranks.iter().filter(|r| **r > 0).count() as u64;
			let passes = ayes > 0
				&& match origin {
					Who::CreateMemberships => ayes >= nays && 2 * bare >= seats,
					_ => 10 * ayes >= 9 * (ayes + nays),
				};
			run_to(longest);
			// something to cancel or to kill
			dispatch(Ref::submit { proposal_origin: Box::new(Who::Root.caller()), proposal: bound(proposals[3].1.clone()), enactment_moment: DispatchTime::After(1) }, &Who::Signed(acc(2))).expect("submits");
			run_to(longest + 1_010);
			let approved = matches!(ReferendumInfoFor::<Runtime, Instance1>::get(0), Some(ReferendumInfo::Approved(..)));
			run.check(approved == passes, if passes { "a decision is not taken" } else { "a decision is taken that was not" }, || json!({"in": full(), "ayes": ayes, "nays": nays, "bare ayes": bare, "seats": seats}));
			let other = match ReferendumInfoFor::<Runtime, Instance1>::get(1) {
				Some(ReferendumInfo::Ongoing(_)) => "open",
				Some(ReferendumInfo::Cancelled(..)) => "cancelled",
				Some(ReferendumInfo::Killed(_)) => "killed",
				_ => "else",
			};
			use frame_support::traits::nonfungibles_v2::Inspect;
			let minted = (90..120u32).filter(|m| <CommunityMemberships as Inspect<Acc>>::owner(&0, m) == Some(treasury())).count();
			let got = (minted, other, rank(1), rank(2), rank(3));
			let mut want = (0, "open", Some(ranks[0]), Some(ranks[1]), Some(ranks[2]));
			if passes {
				match (proposal.0, origin) {
					("memberships", Who::Root | Who::CreateMemberships) => want.0 = 2,
					("cancel", Who::Canceller) => want.1 = "cancelled",
					("kill", Who::Killer) => want.1 = "killed",
					("promote", Who::Root) => want.3 = Some(ranks[1] + 1),
					_ => {}
				}
			}
			run.check(got == want, "the effect is not the one decided", || json!({"in": full(), "got": format!("{got:?}"), "expected": format!("{want:?}")}));
			tally.hit(if passes { "decided" } else { "not decided" });
			run.states(1);
			run.transitions(2);
			run.traces(1);
		}
	});
	run.info("outcomes", tally.json());
	run.sample(json!({"ranks": [1, 1, 1], "decided as": "CreateMemberships", "votes": [1, 1, 2], "outcome": "two memberships"}));
	run.sample(json!({"ranks": [0, 2, 3], "decided as": "Root", "votes": [0, 1, 2], "outcome": "nothing"}));
	if !run.failed() && tally.get("decided") == 0 {
		eprintln!("nothing was decided: error of the check");
		std::process::exit(3);
	}
	run.finish()
}

/// How a body decides: periods, and the shares required at the start and at the end, in hundredths.
struct Rules {
	prepare: u64,
	period: u64,
	confirm: u64,
	approval: (u64, u64),
	support: (u64, u64),
}
/// When a proposal submitted at block 1 ends: approved at, or rejected at.
/// The chain counts shares in billionths: `rounded` is the latest this may lead to.
fn end_of(r: &Rules, rounded: bool, deposit_at: u64, votes_at: u64, ayes: u64, nays: u64, backing: (u64, u64)) -> Result<u64, u64> {
	let since = (1 + r.prepare).max(deposit_at);
	// share required after e blocks: start - (start - end) * e / period
	let enough = |(part, whole): (u64, u64), (start, end): (u64, u64), e: u64| {
		let billion = 1_000_000_000;
		let inexact = rounded && whole > 0 && part * billion % whole != 0;
		let (part, whole) = if inexact { (part * billion / whole - 1, billion) } else { (part, whole) };
		whole > 0 && 100 * part as u128 * r.period as u128 >= whole as u128 * (start * r.period - (start - end) * e) as u128
	};
	let passing = |e: u64| ayes + nays > 0 && enough((ayes, ayes + nays), r.approval, e) && enough(backing, r.support, e);
	let heard = if votes_at < since { 0 } else { votes_at + 1 - since };
	if heard > r.period || !passing(r.period) {
		return Err(since + r.period);
	}
	let (mut lo, mut hi) = (heard, r.period);
	while lo < hi {
		let mid = (lo + hi) / 2;
		if passing(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	Ok(since + lo + r.confirm)
}
fn ended<I: 'static>(index: u32) -> Option<Result<u64, u64>>
where
	Runtime: pallet_referenda::Config<I>,
{
	match ReferendumInfoFor::<Runtime, I>::get(index) {
		Some(ReferendumInfo::Approved(t, ..)) => Some(Ok(t as u64)),
		Some(ReferendumInfo::Rejected(t, ..)) => Some(Err(t as u64)),
		_ => None,
	}
}
fn deciding<I: 'static>(index: u32) -> bool
where
	Runtime: pallet_referenda::Config<I>,
{
	matches!(ReferendumInfoFor::<Runtime, I>::get(index), Some(ReferendumInfo::Ongoing(s)) if s.deciding.is_some())
}

/// The rules communities decide by unless they bring their own.
pub fn k23(run: Run) {
	type Com = pallet_communities::Call<Runtime>;
	type Ref = pallet_referenda::Call<Runtime, Instance2>;
	let rules = Rules { prepare: 1, period: 255, confirm: 1, approval: (100, 50), support: (50, 0) };
	let member = |i: usize| {
		let mut b = [0x60u8; 32];
		b[0] = i as u8;
		b[1] = (i >> 8) as u8;
		Acc::from(b)
	};
	let spend = |value: u128| -> RuntimeCall { Com::new_call_variant_dispatch_as_account(Box::new(pallet_balances::Call::<Runtime>::transfer_allow_death { dest: id(&acc(9)), value: value * UNIT }.into())).into() };
	let vote = |poll: u32, ayes: usize, nays: usize| {
		for i in 0..ayes + nays {
			dispatch(Com::new_call_variant_vote(1000 + i as u32, poll, pallet_communities::types::Vote::Standard(i < ayes)), &Who::Signed(member(i))).expect("votes");
		}
	};
	let most: usize = if run.thorough() { 20 } else { 12 };
	let crowd: usize = if run.thorough() { 301 } else { 101 };
	let with = |n: usize| {
		ext::restore(&chain_with_communities());
		for i in 0..n {
			join(1, 1000 + i as u32, &member(i));
		}
		ext::snapshot()
	};
	let propose = |value: u128| {
		let index = pallet_referenda::ReferendumCount::<Runtime, Instance2>::get();
		dispatch(Ref::submit { proposal_origin: Box::new(Who::Community(1, 0).caller()), proposal: bound(spend(value)), enactment_moment: DispatchTime::After(0) }, &Who::Signed(member(0))).expect("submits");
		index
	};
	let mut cases = vec![];
	for n in 1..=most {
		for ayes in 0..=n {
			for nays in 0..=n - ayes {
				for at in [1u32, 2, 3, 30, 100, 128, 129, 200, 254, 255, 256] {
					cases.push((n, ayes, nays, at));
				}
			}
		}
	}
	// close calls of a crowd
	for ayes in 0..=crowd {
		for nays in ayes.saturating_sub(1)..=(ayes + 1).min(crowd - ayes.min(crowd)) {
			if ayes + nays <= crowd {
				cases.push((crowd, ayes, nays, 1));
			}
		}
	}
	let chains: std::collections::BTreeMap<usize, ext::Map> = (1..=most).chain([crowd]).map(|n| (n, with(n))).collect();
	let tally = Tallier::default();
	par_for(cases.len(), 8, |k| {
		let (n, ayes, nays, at) = cases[k];
		let case = || json!({"members": n, "ayes": ayes, "nays": nays, "votes cast at block": at});
		ext::restore(&chains[&n]);
		let money = Balances::total_balance(&acc(9));
		let p = propose(7);
		dispatch(Ref::place_decision_deposit { index: p }, &Who::Signed(acc(1))).expect("no deposit is asked for");
		run.check(Balances::reserved_balance(&acc(1)) == 0, "a deposit is asked for", case);
		run_to(at);
		vote(p, ayes, nays);
		let end = |rounded| end_of(&rules, rounded, 1, at as u64, ayes as u64, nays as u64, (ayes as u64, n as u64));
		let mut want = end(false);
		let (Ok(last) | Err(last)) = want;
		run_to(last as u32);
		let mut got = ended::<Instance2>(p);
		if got.is_none() && end(true) != want {
			want = end(true);
			let (Ok(last) | Err(last)) = want;
			run_to(last as u32);
			got = ended::<Instance2>(p);
		}
		let (Ok(last) | Err(last)) = want;
		let last = last as u32;
		run.check(got == Some(want), "decided otherwise than by the rules", || json!({"case": case(), "got (approved / rejected at)": format!("{got:?}"), "expected": format!("{want:?}")}));
		run.check(Balances::total_balance(&acc(9)) == money, "carried out before its time", case);
		run_to(last + 1);
		let paid = Balances::total_balance(&acc(9)) - money;
		run.check(paid == if want.is_ok() { 7 * UNIT } else { 0 }, "not carried out at its time", case);
		tally.hit(if want.is_ok() { "approved" } else { "rejected" });
		run.states(1);
		run.transitions(3 + (ayes + nays) as u64);
		run.traces(1);
	});
	// one after the other
	let n = 3;
	let votes: Vec<(usize, usize)> = (0..=n).flat_map(|a| (0..=n - a).map(move |b| (a, b))).collect();
	let map = &chains[&n];
	let v = votes.len();
	par_for(v * v * v, 1, |k| {
		let choice = [votes[k % v], votes[k / v % v], votes[k / v / v]];
		let case = || json!({"(ayes, nays) of three proposals": format!("{choice:?}")});
		ext::restore(map);
		let money = Balances::total_balance(&acc(9));
		let ps: Vec<u32> = (0..3).map(|i| propose([7, 70, 700][i])).collect();
		for (p, (a, b)) in ps.iter().zip(choice) {
			dispatch(Ref::place_decision_deposit { index: *p }, &Who::Signed(acc(1))).expect("no deposit is asked for");
			vote(*p, a, b);
		}
		let mut at_once = 0;
		let mut idle = 0;
		while System::block_number() < 900 {
			run_to(System::block_number() + 1);
			let now = ps.iter().filter(|p| deciding::<Instance2>(**p)).count();
			let open = ps.iter().filter(|p| ended::<Instance2>(**p).is_none()).count();
			at_once = at_once.max(now);
			// waiting for the next to start takes a block
			idle = if now == 0 && open > 0 { idle + 1 } else { 0 };
			run.check(idle <= 2, "nothing is being decided although proposals wait", case);
			run.transitions(1);
			if open == 0 {
				break;
			}
		}
		run_to(System::block_number() + 2);
		run.check(at_once == 1, "proposals are decided at the same time", || json!({"case": case(), "at once": at_once}));
		let mut due = 0;
		for (i, p) in ps.iter().enumerate() {
			let (a, b) = choice[i];
			let want = a > 0 && a >= b;
			run.check(ended::<Instance2>(*p).map(|r| r.is_ok()) == Some(want), "a proposal that waited is decided otherwise", case);
			due += if want { [7, 70, 700][i] * UNIT } else { 0 };
		}
		run.check(Balances::total_balance(&acc(9)) - money == due, "the effect is not the one decided", case);
		tally.hit("three in turn");
		run.states(1);
		run.traces(1);
	});
	run.info("outcomes", tally.json());
	run.sample(json!({"members": 4, "ayes": 3, "nays": 1, "votes cast at block": 1, "outcome": format!("{:?}", end_of(&rules, false, 1, 1, 3, 1, (3, 4)))}));
	run.sample(json!({"members": 101, "ayes": 50, "nays": 51, "votes cast at block": 1, "outcome": format!("{:?}", end_of(&rules, false, 1, 1, 50, 51, (50, 101)))}));
	if !run.failed() && (tally.get("approved") == 0 || tally.get("rejected") == 0) {
		eprintln!("nothing was decided: error of the check");
		std::process::exit(3);
	}
	run.finish()
}

/// The rules the chain decides by.
pub fn k24(run: Run) {
	type Ref = pallet_referenda::Call<Runtime, Instance1>;
	type Ranks = pallet_ranked_collective::Call<Runtime, pallet_ranked_collective::Instance1>;
	let (minutes, days) = (kreivo_runtime::MINUTES as u64, kreivo_runtime::DAYS as u64);
	let tracks = [(Who::Root, 10, (100, 90), (100, 0)), (Who::Canceller, 1, (100, 90), (100, 0)), (Who::Killer, 1, (100, 90), (100, 0)), (Who::CreateMemberships, 1, (100, 50), (100, 50))];
	ext::restore(&chain_with_communities());
	let map = ext::snapshot();
	let say = |r: u16| -> RuntimeCall { frame_system::Call::<Runtime>::remark_with_event { remark: vec![r as u8] }.into() };
	let (submitter, depositor) = (acc(1), acc(2));
	let tally = Tallier::default();
	let n = 4usize.pow(3);
	let times: Vec<(u64, u64)> = vec![(1, 1), (1, 2), (1, 15 * minutes), (1, 15 * minutes + 2), (1, days), (1, 3 * days), (1, 4 * days + 10 * minutes), (2 * minutes, 1), (20 * minutes, 1), (days, 2 * days), (2 * days - 1, 1), (2 * days - 1, 5 * days)];
	par_for(n * tracks.len() * times.len(), 1, |k| {
		let ranks: Vec<u16> = (0..3).map(|i| (k % n / 4usize.pow(i) % 4) as u16).collect();
		let (origin, stake, approval, support) = &tracks[k / n % tracks.len()];
		let (deposit_at, votes_at) = times[k / n / tracks.len()];
		let rules = Rules { prepare: 15 * minutes, period: 4 * days, confirm: 15 * minutes, approval: *approval, support: *support };
		ext::restore(&map);
		for (i, r) in ranks.iter().enumerate() {
			for _ in 0..*r {
				dispatch(Ranks::promote_member { who: id(&community_account(i as u16 + 1)) }, &Who::Root).expect("promotes");
			}
		}
		let case = || json!({"ranks": format!("{ranks:?}"), "decided as": origin.name(), "deposit placed at": deposit_at, "votes cast at": votes_at});
		let held = || (Balances::reserved_balance(&submitter), Balances::reserved_balance(&depositor));
		dispatch(Ref::submit { proposal_origin: Box::new(origin.caller()), proposal: bound(say(7)), enactment_moment: DispatchTime::After(0) }, &Who::Signed(submitter.clone())).expect("submits");
		run.check(held() == (UNIT, 0), "proposing costs another deposit", || json!({"case": case(), "held": format!("{:?}", held())}));
		let start = ext::snapshot();
		for w in 0..27usize {
			let word: Vec<usize> = (0..3).map(|i| w / 3usize.pow(i as u32) % 3).collect();
			if (0..3).any(|i| word[i] > 0 && ranks[i] == 0) {
				continue;
			}
			ext::restore(&start);
			let full = || json!({"case": case(), "votes (absent, aye, nay)": format!("{word:?}")});
			let (mut bare, mut ayes, mut nays) = (0u64, 0u64, 0u64);
			let mut cast = || {
				for i in 0..3usize {
					if word[i] > 0 {
						dispatch(Ranks::vote { poll: 0, aye: word[i] == 1 }, &Who::Signed(community_account(i as u16 + 1))).expect("votes");
						if word[i] == 1 {
							bare += 1;
							ayes += ranks[i] as u64;
						} else {
							nays += ranks[i] as u64;
						}
					}
				}
			};
			let place = || {
				dispatch(Ref::place_decision_deposit { index: 0 }, &Who::Signed(depositor.clone())).expect("deposits");
				run.check(held() == (UNIT, *stake * UNIT), "the vote costs another deposit", || json!({"in": full(), "held": format!("{:?}", held())}));
			};
			let mut events = [(deposit_at, 0), (votes_at, 1)];
			events.sort();
			for (t, what) in events {
				run_to(t as u32);
				if what == 0 {
					place()
				} else {
					cast()
				}
			}
			let seats = ranks.iter().filter(|r| **r > 0).count() as u64;
			let want = end_of(&rules, false, deposit_at, votes_at, ayes, nays, (bare, seats));
			let (Ok(last) | Err(last)) = want;
			// counting in billionths may cost a block
			run_to(last as u32 - 1);
			let early = ended::<Instance1>(0);
			run_to(last as u32 + 2);
			let late = ended::<Instance1>(0);
			run.check(early.is_none() && late.map(|r| r.is_ok()) == Some(want.is_ok()), "decided otherwise than by the rules", || json!({"in": full(), "before": format!("{early:?}"), "got": format!("{late:?}"), "expected": format!("{want:?}")}));
			run.check(held() == (UNIT, *stake * UNIT), "a deposit is gone", full);
			let _ = dispatch(Ref::refund_decision_deposit { index: 0 }, &Who::Signed(acc(3)));
			let _ = dispatch(Ref::refund_submission_deposit { index: 0 }, &Who::Signed(acc(3)));
			run.check(held() == (if want.is_ok() { 0 } else { UNIT }, 0), "a deposit is not returned", || json!({"in": full(), "held": format!("{:?}", held())}));
			tally.hit(if want.is_ok() { "approved" } else { "rejected" });
			run.states(1);
			run.transitions(4);
			run.traces(1);
		}
	});
	// one at a time per field, and nothing waits forever for its deposit
	for (origin, ..) in &tracks {
		for count in 2..=4u32 {
			ext::restore(&map);
			for _ in 0..count {
				dispatch(Ref::submit { proposal_origin: Box::new(origin.caller()), proposal: bound(say(7)), enactment_moment: DispatchTime::After(0) }, &Who::Signed(submitter.clone())).expect("submits");
			}
			for i in 0..count - 1 {
				dispatch(Ref::place_decision_deposit { index: i }, &Who::Signed(depositor.clone())).expect("deposits");
			}
			let case = || json!({"decided as": origin.name(), "proposals": count});
			let mut seen = 0;
			for block in 1..=(count as u64 * 4 * days + days) / 50 {
				run_to(block as u32 * 50);
				let now = (0..count).filter(|i| deciding::<Instance1>(*i)).count();
				run.check(now <= 1, "proposals are decided at the same time", case);
				seen = seen.max(now);
				let dropped = matches!(ReferendumInfoFor::<Runtime, Instance1>::get(count - 1), Some(ReferendumInfo::TimedOut(..)));
				run.check(dropped == (block * 50 >= 1 + 2 * days), "a proposal without deposit is dropped at another time", || json!({"case": case(), "block": block * 50}));
				run.transitions(1);
			}
			run.check(seen == 1, "nothing is decided", case);
			run.check((0..count - 1).all(|i| matches!(ended::<Instance1>(i), Some(Err(_)))), "a proposal without votes does not end", case);
			run.states(1);
			run.traces(1);
		}
	}
	run.info("outcomes", tally.json());
	run.sample(json!({"ranks": [1, 1, 1], "decided as": "Root", "votes": "all aye, block 1", "outcome": "approved after 30 minutes"}));
	if !run.failed() && (tally.get("approved") == 0 || tally.get("rejected") == 0) {
		eprintln!("nothing was decided: error of the check");
		std::process::exit(3);
	}
	run.finish()
}
