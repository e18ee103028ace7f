//! M01-M13: every interleaving of registry, membership, governance and voting calls on the real pallet,
//! compared step by step with an independent account of the rules.
mod grids;
mod model;
mod rt;

use frame_support::traits::{fungible, fungibles, nonfungibles_v2::InspectEnumerable, EnsureOrigin, EnsureOriginWithArg, OriginTrait, VoteTally};
use mc_core::serde_json::{json, Value};
use mc_core::{bfs, guard, Run, Succ, Tallier};
use model::*;
use pallet_communities::types::CommunityState;
use pallet_communities::{origin::{EnsureCommunity, EnsureMember}, Call, DecisionMethod, Event, FreezeReason, Vote};
use parity_scale_codec::Encode;
use rt::*;
use shim_base::ext;
use sp_runtime::traits::Dispatchable;
use std::collections::{BTreeMap, BTreeSet};

const A: u8 = 1;
const B: u8 = 2;
const C: u8 = 3;
const PEOPLE: [u8; 3] = [A, B, C];
const CURRENCIES: [u32; 3] = [NATIVE, 7, 8];

#[derive(Clone)]
pub struct St {
	map: ext::Map,
	model: Model,
}

pub fn account(o: Og) -> AccountId {
	match o {
		Og::Signed(a) => acc(a),
		Og::Acct(c) => Communities::community_account(&Cid(c)),
		_ => unreachable!("not an account"),
	}
}
pub fn origin(o: Og) -> RuntimeOrigin {
	match o {
		Og::Root => RuntimeOrigin::root(),
		Og::Nobody => RuntimeOrigin::none(),
		Og::Com(c) => pallet_communities::Origin::<Rt>::new(Cid(c)).into(),
		o => RuntimeOrigin::signed(account(o)),
	}
}
fn caller(o: Og) -> OriginCaller {
	origin(o).caller().clone()
}
fn method(m: Method) -> DecisionMethod<u32, u64> {
	match m {
		Method::Membership => DecisionMethod::Membership,
		Method::Native => DecisionMethod::NativeToken,
		Method::Asset(a, n) => DecisionMethod::CommunityAsset(a, n),
		Method::Rank => DecisionMethod::Rank,
	}
}
fn vote(v: V) -> Vote<u32, u64, u64> {
	match v {
		V::Std(a) => Vote::Standard(a),
		V::Nat(a, n) => Vote::NativeBalance(a, n),
		V::Ast(a, id, n) => Vote::AssetBalance(a, id, n),
	}
}
fn inner(i: Inner) -> RuntimeCall {
	match i {
		Inner::Remark => frame_system::Call::remark_with_event { remark: b"hi".to_vec() }.into(),
		Inner::Pay(value) => pallet_balances::Call::transfer_keep_alive { dest: acc(TREASURY), value }.into(),
		Inner::Method(id, m) => Call::new_call_variant_set_decision_method(Cid(id), method(m)).into(),
		Inner::Nested => Call::new_call_variant_dispatch_as_account(Box::new(inner(Inner::Remark))).into(),
	}
}
fn call(op: &Op) -> (RuntimeOrigin, RuntimeCall) {
	match *op {
		Op::Create { by, admin, id } => (origin(by), Call::new_call_variant_create(caller(admin), Cid(id)).into()),
		Op::Handover { by, to } => (origin(by), Call::new_call_variant_set_admin_origin(caller(to)).into()),
		Op::SetMethod { by, id, method: m } => {
			(origin(by), Call::new_call_variant_set_decision_method(Cid(id), method(m)).into())
		}
		Op::Add { by, who } => (origin(by), Call::new_call_variant_add_member(acc(who)).into()),
		Op::Remove { by, who, m } => (origin(by), Call::new_call_variant_remove_member(acc(who), m).into()),
		Op::Promote { by, m } => (origin(by), Call::new_call_variant_promote(m).into()),
		Op::Demote { by, m } => (origin(by), Call::new_call_variant_demote(m).into()),
		Op::Give { from, to, m } => {
			let c = Nfts::owned(&acc(from)).find(|x| x.1 == m).map_or(Cid(1), |x| x.0);
			(origin(Og::Signed(from)), pallet_nfts::Call::transfer { collection: c, item: m, dest: acc(to) }.into())
		}
		Op::Cede { from, to, m } => {
			let (from, to) = (Og::Acct(from), Og::Acct(to));
			(origin(from), pallet_nfts::Call::transfer { collection: HOME, item: m, dest: account(to) }.into())
		}
		Op::Vote { by, m, poll, v } => (origin(by), Call::new_call_variant_vote(m, poll, vote(v)).into()),
		Op::Unvote { by, m, poll } => (origin(by), Call::new_call_variant_remove_vote(m, poll).into()),
		Op::Unlock { by, poll } => (origin(by), Call::new_call_variant_unlock(poll).into()),
		Op::Dispatch { by, inner: i } => (origin(by), Call::new_call_variant_dispatch_as_account(Box::new(inner(i))).into()),
		Op::Block { .. } | Op::Finish { .. } => unreachable!(),
	}
}

/// Where the three sums sit in an encoded tally, found out by voting.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
	ayes: usize,
	nays: usize,
	bare: usize,
}
impl Layout {
	pub fn read(&self, t: &[u8]) -> Sums {
		let w = |i: usize| u32::from_le_bytes(t[i..i + 4].try_into().unwrap()) as u64;
		Sums { ayes: w(self.ayes), nays: w(self.nays), bare: w(self.bare) }
	}
	/// Votes of rank 3 for and against show which word counts what.
	fn probe() -> Option<Layout> {
		let s = base(&[(1, 1, A)], Method::Rank, &[(0, 1)]);
		ext::restore(&s.map);
		for _ in 0..3 {
			let (o, c) = call(&Op::Promote { by: Og::Com(1), m: 1 });
			c.dispatch(o).ok()?;
		}
		let m = ext::snapshot();
		let cast = |aye: bool| {
			ext::restore(&m);
			let (o, c) = call(&Op::Vote { by: Og::Signed(A), m: 1, poll: 0, v: V::Std(aye) });
			c.dispatch(o).ok()?;
			let t = Polls::get(0)?.tally.encode();
			(t.len() == 12).then_some(t)
		};
		let (aye, nay) = (cast(true)?, cast(false)?);
		let find = |t: &[u8], x: u32| (0..3).map(|i| i * 4).find(|i| t[*i..*i + 4] == x.to_le_bytes());
		let l = Layout { ayes: find(&aye, 3)?, bare: find(&aye, 1)?, nays: find(&nay, 3)? };
		(l.ayes != l.nays && l.bare != l.nays && find(&nay, 1).is_none()).then_some(l)
	}
}

struct Obs {
	admins: BTreeMap<Og, Option<u32>>,
	exists: Vec<u32>,
	/// membership -> where it is: (collection, owner)
	items: BTreeMap<u32, Vec<(u32, AccountId)>>,
	ranks: BTreeMap<u32, u8>,
	frozen: BTreeMap<(u8, u32), u64>,
	balances: BTreeMap<(Og, u32), u64>,
	polls: BTreeMap<u32, (Option<Sums>, u32, u32, u32)>,
	methods: BTreeMap<u32, Option<Method>>,
	/// (origin, community) -> admitted by the gate, counted as member, memberships listed
	gates: BTreeMap<(Og, u32), (bool, bool, Vec<u32>)>,
}

fn frozen(who: u8, currency: u32) -> u64 {
	let r: RuntimeFreezeReason = FreezeReason::VoteCasted.into();
	match currency {
		NATIVE => <Balances as fungible::freeze::Inspect<AccountId>>::balance_frozen(&r, &acc(who)),
		a => <AssetsFreezer as fungibles::freeze::Inspect<AccountId>>::balance_frozen(a, &r, &acc(who)),
	}
}
fn balance(o: Og, currency: u32) -> u64 {
	match currency {
		NATIVE => <Balances as fungible::Inspect<AccountId>>::total_balance(&account(o)),
		a => <Assets as fungibles::Inspect<AccountId>>::total_balance(a, &account(o)),
	}
}
fn issuance(currency: u32) -> u64 {
	match currency {
		NATIVE => <Balances as fungible::Inspect<AccountId>>::total_issuance(),
		a => <Assets as fungibles::Inspect<AccountId>>::total_issuance(a),
	}
}

/// The decision method in force, told by the votes a member of rank 2 can cast: only for scenarios that
/// set this up (member of community c holds membership 10+c, poll 10+c is open).
fn method_in_force(c: u32) -> Option<Method> {
	let m = ext::snapshot();
	let mut works = |v: V| {
		let (o, call) = call(&Op::Vote { by: Og::Signed(C), m: 10 + c, poll: 10 + c, v });
		let ok = guard(|| call.dispatch(o).is_ok()).unwrap_or(false);
		let ayes = Polls::get(10 + c).map_or(0, |p| p.tally.ayes(Cid(c)));
		ext::restore(&m);
		ok.then_some(ayes)
	};
	let r = (works(V::Std(true)), works(V::Nat(true, 5)), works(V::Ast(true, 7, 5)), works(V::Ast(true, 8, 5)));
	Some(match r {
		(Some(1), None, None, None) => Method::Membership,
		(Some(2), None, None, None) => Method::Rank,
		(None, Some(5), None, None) => Method::Native,
		(None, None, Some(5), None) => Method::Asset(7, 2),
		(None, None, None, Some(5)) => Method::Asset(8, 2),
		_ => return None,
	})
}

struct World {
	layout: Option<Layout>,
	origins: Vec<Og>,
	watch_methods: bool,
	watch_gates: bool,
}

fn observe(w: &World, model: &Model) -> Obs {
	let mut o = Obs {
		admins: BTreeMap::new(),
		exists: vec![],
		items: BTreeMap::new(),
		ranks: BTreeMap::new(),
		frozen: BTreeMap::new(),
		balances: BTreeMap::new(),
		polls: BTreeMap::new(),
		methods: BTreeMap::new(),
		gates: BTreeMap::new(),
	};
	if w.watch_gates {
		for og in PEOPLE.map(Og::Signed).into_iter().chain([Og::Acct(1), Og::Acct(2), Og::Root, Og::Nobody, Og::Com(1), Og::Com(2)]) {
			for c in 0..4 {
				let gate = <EnsureMember<Rt> as EnsureOriginWithArg<_, _>>::try_origin(origin(og), &Cid(c)).is_ok();
				let (counted, list) = match og {
					Og::Signed(_) | Og::Acct(_) => {
						let mut l = Communities::get_memberships(Cid(c), &account(og));
						l.sort();
						(Communities::is_member(&Cid(c), &account(og)), l)
					}
					_ => (false, vec![]),
				};
				o.gates.insert((og, c), (gate, counted, list));
			}
		}
	}
	for og in &w.origins {
		o.admins.insert(*og, EnsureCommunity::<Rt>::try_origin(origin(*og)).ok().map(|c| c.0));
	}
	o.exists = (0..4).filter(|c| Communities::community_exists(&Cid(*c))).collect();
	for (c, m, who) in pallet_nfts::Item::<Rt>::iter() {
		o.items.entry(m).or_default().push((c.0, who));
		if c != HOME {
			o.ranks.insert(m, Communities::member_rank(&c, &m).into());
		}
	}
	for p in PEOPLE {
		for c in CURRENCIES {
			o.frozen.insert((p, c), frozen(p, c));
		}
	}
	for k in model.balances.keys() {
		o.balances.insert(*k, balance(k.0, k.1));
	}
	for i in model.polls.keys() {
		let p = Polls::get(*i).expect("poll");
		let s = w.layout.map(|l| l.read(&p.tally.encode()));
		// a panic here is M10's business and shows as an impossible ratio
		let f = |r: Result<sp_runtime::Perbill, String>| r.map_or(u32::MAX, |x| x.deconstruct());
		o.polls.insert(*i, (s, p.tally.ayes(p.class), f(guard(|| p.tally.approval(p.class))), f(guard(|| p.tally.support(p.class)))));
	}
	if w.watch_methods {
		for c in [1, 2] {
			o.methods.insert(c, method_in_force(c));
		}
	}
	o
}

fn ratio(a: u64, b: u64) -> u64 {
	((a as u128 * 1_000_000_000) / (b.max(1) as u128)).min(1_000_000_000) as u64
}

struct Ctx<'a> {
	run: &'a Run,
	tally: &'a Tallier,
	world: World,
}
impl Ctx<'_> {
	fn report(&self, props: &[&str], key: &str, case: impl FnOnce() -> Value) {
		if props.contains(&self.run.property.as_str()) {
			self.run.fail(key, case());
		}
	}
}

fn step(ctx: &Ctx, s: &St, op: &Op, trace: &dyn Fn() -> Vec<String>) -> Option<St> {
	ext::restore(&s.map);
	let kind = op.kind();
	let case = |why: &str, more: Value| {
		let mut t = trace();
		t.push(op.to_string());
		json!({"history": t, "what": why, "detail": more})
	};
	let r = guard(|| match *op {
		Op::Block { id, blocked } => {
			Communities::force_state(&Cid(id), if blocked { CommunityState::Blocked } else { CommunityState::Active });
			true
		}
		Op::Finish { poll, status } => {
			Polls::finish(poll, status);
			true
		}
		ref op => {
			let (o, c) = call(op);
			c.dispatch(o).is_ok()
		}
	});
	let authority_props: &[&str] = if op.by_authority().is_some() { &["M02", "M03"] } else { &[] };
	let mains: Vec<&str> = op.main().iter().chain(authority_props).copied().collect();
	let ok = match r {
		Ok(ok) => ok,
		Err(p) => {
			let mut props = mains.clone();
			props.push("M06");
			ctx.report(&props, &format!("{kind}: panics"), || case("the call panics", json!(p)));
			return None;
		}
	};
	if !ok {
		if ext::snapshot() != s.map {
			ctx.report(&mains, &format!("{kind}: failed attempt changes the state"), || case("state changed by a failed attempt", json!(null)));
		}
		if s.model.apply(op, None).is_ok() {
			if let Op::Handover { by, .. } = op {
				// the community's own voice need not be able to hand over
				if matches!(by, Og::Com(c) if s.model.communities.get(c).map_or(true, |x| x.admin != *by)) {
					return None;
				}
			}
			if let Op::Unlock { by: Og::Signed(who), poll } = op {
				if !s.model.poll_locks.contains_key(&(*who, *poll)) {
					ctx.report(&["M08"], "lock-shared-by-two-memberships-of-one-account", || case("unlocking refused", json!(null)));
					return None;
				}
			}
			ctx.report(&mains, &format!("{kind}: rejected although the rules allow it"), || case("an allowed call was rejected", json!(format!("{:?}", s.model))));
		}
		return None;
	}
	let events: Vec<RuntimeEvent> = System::events().into_iter().map(|e| e.event).collect();
	System::reset_events();
	let map = ext::snapshot();
	let obs = observe(&ctx.world, &s.model);
	ext::restore(&map);
	// which membership was handed out
	let moved = match op {
		Op::Add { who, .. } => {
			let v: Vec<u32> = s
				.model
				.memberships
				.iter()
				.filter(|(m, x)| x.holder.is_none() && obs.items.get(m).map_or(false, |p| p.len() == 1 && p[0].0 == x.community && p[0].1 == acc(*who)))
				.map(|x| *x.0)
				.collect();
			v.first().map(|m| (*m, obs.ranks.get(m).copied().unwrap_or(0)))
		}
		_ => None,
	};
	let next = match s.model.apply(op, moved) {
		Ok(n) => n,
		Err(props) => {
			ctx.report(&props, &format!("{kind}: succeeds although the rules forbid it"), || case("a forbidden call succeeded", json!(format!("{:?}", s.model))));
			return None;
		}
	};
	ctx.tally.hit(kind);
	if ctx.tally.get(kind) == 1 {
		let mut t = trace();
		t.push(op.to_string());
		ctx.run.sample(json!({"history": t}));
	}
	let mut lost = false;
	let mut differ = |props: &[&str], what: &str, expected: String, found: String| {
		lost = true;
		let mut p: Vec<&str> = props.to_vec();
		p.extend(op.main());
		ctx.report(&p, &format!("{kind}: {what}"), || case(what, json!({"expected": expected, "found": found})));
	};
	// who administers what
	for (og, got) in &obs.admins {
		let want = next.authority(*og).ok();
		if want != *got {
			let mut props = vec!["M01", "M02"];
			if next.communities.values().any(|c| c.blocked) || s.model.communities.values().any(|c| c.blocked) {
				props.push("M03");
			}
			differ(&props, "wrong authority over a community", format!("{og:?}: {want:?}"), format!("{got:?}"));
		}
	}
	let want: Vec<u32> = next.communities.keys().copied().collect();
	if want != obs.exists {
		differ(&["M01"], "wrong communities exist", format!("{want:?}"), format!("{:?}", obs.exists));
	}
	// memberships
	let known: BTreeSet<u32> = obs.items.keys().chain(next.memberships.keys()).copied().collect();
	for m in known {
		let place: Vec<(u32, AccountId)> = next
			.memberships
			.get(&m)
			.map(|x| match x.holder {
				Some(w) => (x.community, acc(w)),
				None => (HOME.0, account(Og::Acct(x.community))),
			})
			.into_iter()
			.collect();
		let got = obs.items.get(&m).cloned().unwrap_or_default();
		if got != place {
			differ(&["M04", "M02"], "memberships are not where they belong", format!("membership {m}: {place:?}"), format!("{got:?}"));
		}
	}
	for (m, x) in &next.memberships {
		if x.holder.is_some() && obs.ranks.get(m) != Some(&x.rank) {
			differ(&["M05", "M02"], "wrong rank", format!("membership {m}: {}", x.rank), format!("{:?}", obs.ranks.get(m)));
		}
	}
	for (c, got) in &obs.methods {
		let want = next.method(*c);
		if *got != Some(want) {
			differ(&["M02", "M09"], "wrong decision method in force", format!("community {c}: {want:?}"), format!("{got:?}"));
		}
	}
	for ((og, c), got) in &obs.gates {
		// the communities' accounts hold the unassigned memberships of collection 0
		if *c == HOME.0 && matches!(og, Og::Acct(_)) {
			continue;
		}
		let list: Vec<u32> = next.memberships.iter().filter(|(_, x)| x.community == *c && x.holder.map(Og::Signed) == Some(*og)).map(|x| *x.0).collect();
		let want = (!list.is_empty(), !list.is_empty(), list);
		if *got != want {
			differ(&["M14"], "membership gate differs from the memberships held", format!("{og:?} in {c}: {want:?}"), format!("{got:?}"));
		}
	}
	// announcements
	let said: Vec<&Event<Rt>> = events.iter().filter_map(|e| if let RuntimeEvent::Communities(e) = e { Some(e) } else { None }).collect();
	if ctx.run.property == "M15" {
		let method_of = |by: Og| s.model.authority(by).ok();
		let want: Vec<Event<Rt>> = match *op {
			Op::Create { admin, id, .. } => vec![Event::CommunityCreated { id: Cid(id), origin: caller(admin) }],
			Op::Handover { by, to } => method_of(by).map(|id| Event::AdminOriginSet { id: Cid(id), origin: caller(to) }).into_iter().collect(),
			Op::SetMethod { id, .. } | Op::Dispatch { inner: Inner::Method(id, _), .. } => vec![Event::DecisionMethodSet { id: Cid(id) }],
			Op::Add { who, .. } => moved.iter().map(|m| Event::MemberAdded { who: acc(who), membership_id: m.0 }).collect(),
			Op::Remove { who, m, .. } => vec![Event::MemberRemoved { who: acc(who), membership_id: m }],
			Op::Promote { m, .. } | Op::Demote { m, .. } => {
				vec![Event::MembershipRankUpdated { membership_id: m, rank: next.memberships[&m].rank.into() }]
			}
			Op::Vote { by, poll, v, .. } => vec![Event::VoteCasted { who: account(by), poll_index: poll, vote: vote(v) }],
			Op::Unvote { by, poll, .. } => vec![Event::VoteRemoved { who: account(by), poll_index: poll }],
			_ => vec![],
		};
		let got: Vec<Event<Rt>> = said.iter().map(|e| (*e).clone()).collect();
		if got != want {
			differ(&["M15"], "announced something else than what happened", format!("{want:?}"), format!("{got:?}"));
		}
	}
	match op {
		Op::Promote { m, .. } | Op::Demote { m, .. } => {
			let ranks: Vec<(u32, u8)> =
				said.iter().filter_map(|e| if let Event::MembershipRankUpdated { membership_id, rank } = e { Some((*membership_id, (*rank).into())) } else { None }).collect();
			let want = vec![(*m, next.memberships[m].rank)];
			if ranks != want {
				differ(&["M05"], "announced rank is not the rank in effect", format!("{want:?}"), format!("{ranks:?}"));
			}
		}
		Op::Add { who, .. } => {
			let got: Vec<(AccountId, u32)> =
				said.iter().filter_map(|e| if let Event::MemberAdded { who, membership_id } = e { Some((who.clone(), *membership_id)) } else { None }).collect();
			let want: Vec<(AccountId, u32)> = moved.iter().map(|m| (acc(*who), m.0)).collect();
			if got != want {
				differ(&["M04"], "announced membership is not the one handed out", format!("{want:?}"), format!("{got:?}"));
			}
		}
		Op::Remove { who, m, .. } => {
			let got: Vec<(AccountId, u32)> =
				said.iter().filter_map(|e| if let Event::MemberRemoved { who, membership_id } = e { Some((who.clone(), *membership_id)) } else { None }).collect();
			let want = vec![(acc(*who), *m)];
			if got != want {
				differ(&["M04"], "announced membership is not the one released", format!("{want:?}"), format!("{got:?}"));
			}
		}
		Op::Dispatch { by, inner: i @ (Inner::Remark | Inner::Nested) } => {
			let got: Vec<AccountId> = events
				.iter()
				.filter_map(|e| if let RuntimeEvent::System(frame_system::Event::Remarked { sender, .. }) = e { Some(sender.clone()) } else { None })
				.collect();
			let want: Vec<AccountId> = s.model.remark_signer(*by, *i).map(account).into_iter().collect();
			if got != want {
				differ(&["M11", "M13"], "call ran with another account", format!("{want:?}"), format!("{got:?}"));
			}
		}
		_ => {}
	}
	for (k, want) in &next.balances {
		let got = obs.balances[k];
		if *want != got {
			differ(&["M11", "M01"], "wrong balance", format!("{k:?}: {want}"), got.to_string());
		}
	}
	// votes
	for (i, p) in &next.polls {
		let (sums, ayes, approval, support) = obs.polls[i];
		let want = next.sums(*i);
		let votes = || next.votes.iter().filter(|(k, _)| k.0 == *i).map(|(k, r)| format!("membership {}: {:?} by {} counted {}", k.1, r.v, r.voter, r.counted)).collect::<Vec<_>>();
		let got = match sums {
			Some(s) => s,
			// the representation is unknown: told by the ayes alone
			None => Sums { ayes: ayes as u64, ..want },
		};
		if got != want {
			let d = &p.drift;
			if got == d.both {
				if d.by_multiplier == d.both {
					ctx.report(&["M06"], "vote-taken-back-at-another-weight-than-it-was-cast-with", || case("tally", json!({"expected": format!("{want:?}"), "found": format!("{got:?}"), "votes": votes()})));
				} else {
					ctx.report(&["M06"], "tally-saturates-at-the-largest-weight", || case("tally", json!({"expected": format!("{want:?}"), "found": format!("{got:?}"), "votes": votes()})));
				}
			} else {
				differ(&["M06", "M07"], "tally is not the sum of the recorded votes", format!("poll {i}: {want:?} from {:?}", votes()), format!("{got:?}"));
			}
		}
		if got.ayes != ayes as u64 {
			differ(&["M10", "M06"], "ayes reported differ from the tally", format!("poll {i}: {got:?}"), ayes.to_string());
		}
		let e = next.electorate(p.class, &issuance);
		let (wa, ws) = (ratio(got.ayes, got.ayes + got.nays), ratio(got.bare, e));
		if approval as u64 != wa {
			differ(&["M10"], "approval is not the ratio of the tally", format!("poll {i}: {got:?} -> {wa}"), approval.to_string());
		}
		if e > 0 && support as u64 != ws {
			differ(&["M10"], "support is not the ratio of the tally", format!("poll {i}: {got:?} of {e} -> {ws}"), support.to_string());
		}
	}
	for ((w, c), got) in &obs.frozen {
		let want = next.frozen(*w, *c);
		if want != *got {
			if next.poll_frozen.get(&(*w, *c)).copied().unwrap_or(0) == *got {
				ctx.report(&["M08"], "lock-shared-by-two-memberships-of-one-account", || case("frozen", json!({"account": w, "currency": c, "expected": want, "found": got})));
			} else {
				differ(&["M08"], "frozen amount is not the largest still needed", format!("account {w} currency {c}: {want}"), got.to_string());
			}
		}
	}
	if lost {
		return None;
	}
	Some(St { map, model: next })
}

/// A chain without communities.
fn blank(memberships: &[(u32, u32)], native: &[(Og, u64)], assets: &[(u32, u8, u64)]) -> St {
	let mut model = Model::default();
	let nat: Vec<(AccountId, u64)> = native.iter().map(|(o, n)| (account(*o), *n)).collect();
	let ast: Vec<(u32, AccountId, u64)> = assets.iter().map(|(a, w, n)| (*a, acc(*w), *n)).collect();
	let map = genesis(&nat, &ast, memberships);
	for (m, c) in memberships {
		model.memberships.insert(*m, Membership { community: *c, holder: None, rank: 0 });
	}
	for (o, n) in native {
		model.balances.insert((*o, NATIVE), *n);
	}
	for (a, w, n) in assets {
		model.balances.insert((Og::Signed(*w), *a), *n);
	}
	St { map, model }
}
/// Applies setup steps through the pallet itself.
fn setup(mut s: St, ops: &[Op]) -> St {
	for op in ops {
		ext::restore(&s.map);
		let moved = match *op {
			Op::Block { id, blocked } => {
				Communities::force_state(&Cid(id), if blocked { CommunityState::Blocked } else { CommunityState::Active });
				None
			}
			ref op => {
				let (o, c) = call(op);
				if let Err(e) = c.dispatch(o) {
					eprintln!("setup failed at {op}: {e:?}");
				}
				match op {
					Op::Add { who, .. } => {
						let held: Vec<u32> = Nfts::owned(&acc(*who)).map(|x| x.1).collect();
						s.model.memberships.iter().find(|(m, x)| x.holder.is_none() && held.contains(m)).map(|x| (*x.0, 0))
					}
					_ => None,
				}
			}
		};
		System::reset_events();
		s.map = ext::snapshot();
		match s.model.apply(op, moved) {
			Ok(n) => s.model = n,
			Err(e) => eprintln!("setup breaks the rules at {op}: {e:?}"),
		}
	}
	s
}
/// Communities administered by their own voice, members and open polls in place.
fn base(members: &[(u32, u32, u8)], m: Method, polls: &[(u32, u32)]) -> St {
	let memberships: Vec<(u32, u32)> = members.iter().map(|x| (x.0, x.1)).collect();
	base_with(members, &memberships, &[(Og::Signed(A), 20), (Og::Signed(B), 10), (Og::Signed(C), 10)], &[(7, A, 20), (7, B, 10), (8, A, 20)], m, polls)
}
fn base_with(members: &[(u32, u32, u8)], memberships: &[(u32, u32)], native: &[(Og, u64)], assets: &[(u32, u8, u64)], m: Method, polls: &[(u32, u32)]) -> St {
	let s = blank(memberships, native, assets);
	let mut ops = vec![];
	for id in [1, 2] {
		ops.push(Op::Create { by: Og::Root, admin: Og::Com(id), id });
		ops.push(Op::SetMethod { by: Og::Com(id), id, method: m });
	}
	let mut s = setup(s, &ops);
	// hand out exactly the wanted memberships
	ext::restore(&s.map);
	for (m, c, who) in members {
		<Nfts as fc_traits_memberships::Manager<AccountId, pallet_nfts::ItemConfig>>::assign(&Cid(*c), m, &acc(*who)).expect("assigned");
		s.model.memberships.get_mut(m).expect("membership").holder = Some(*who);
	}
	for (i, class) in polls {
		Polls::open(*i, *class);
		s.model.polls.insert(*i, model::Poll { class: *class, status: 0, drift: Drift::default() });
	}
	System::reset_events();
	s.map = ext::snapshot();
	s
}

struct Scenario {
	name: &'static str,
	init: St,
	ops: Box<dyn Fn(&Model) -> Vec<Op> + Sync>,
	depth: usize,
	origins: Vec<Og>,
	watch_methods: bool,
}

fn explore(run: &Run, sc: Scenario, tally: &Tallier, layout: Option<Layout>) {
	let ctx = Ctx { run, tally, world: World { layout, origins: sc.origins.clone(), watch_methods: sc.watch_methods, watch_gates: run.property == "M14" } };
	let e = bfs(
		vec![sc.init],
		|s: &St| mc_core::digest(&(s.map.clone(), &s.model).encode()),
		sc.depth,
		500_000,
		|s, trace| {
			let list = (sc.ops)(&s.model);
			run.traces(list.len() as u64);
			list.into_iter().filter_map(|op| step(&ctx, s, &op, trace).map(|n| Succ { label: op.to_string(), state: n })).collect()
		},
	);
	if !e.fixpoint {
		run.not_exhaustive();
	}
	run.states(e.states);
	run.transitions(e.transitions);
	run.info(
		&format!("explored {}", sc.name),
		json!({"states": e.states, "changing_transitions": e.transitions, "depth": e.depth, "complete": e.fixpoint}),
	);
}

fn all_origins() -> Vec<Og> {
	vec![Og::Root, Og::Nobody, Og::Signed(A), Og::Signed(B), Og::Com(1), Og::Com(2), Og::Com(3), Og::Acct(1), Og::Acct(2)]
}

/// Creation, handing over, blocking, with every administrative call tried by everybody.
fn registry(thorough: bool) -> Scenario {
	let mut init = blank(
		&[(1, 1), (2, 2), (11, 1), (12, 2)],
		&[(Og::Signed(A), 12), (Og::Signed(B), 10), (Og::Signed(TREASURY), 5), (Og::Acct(1), 30), (Og::Acct(2), 30), (Og::Signed(C), 10)],
		&[(7, C, 10), (8, C, 10)],
	);
	// what tells the method in force: a member of rank 2 and an open poll in either community
	ext::restore(&init.map);
	for c in [1u32, 2] {
		use fc_traits_memberships::{Manager, Rank};
		<Nfts as Manager<AccountId, pallet_nfts::ItemConfig>>::assign(&Cid(c), &(10 + c), &acc(C)).expect("assigned");
		<Nfts as Rank<AccountId, pallet_nfts::ItemConfig>>::set_rank(&Cid(c), &(10 + c), 2u8).expect("ranked");
		let x = init.model.memberships.get_mut(&(10 + c)).expect("membership");
		x.holder = Some(C);
		x.rank = 2;
		Polls::open(10 + c, c);
		init.model.polls.insert(10 + c, model::Poll { class: c, status: 0, drift: Drift::default() });
	}
	System::reset_events();
	init.map = ext::snapshot();
	let admins = vec![Og::Signed(A), Og::Signed(B), Og::Com(1), Og::Com(2), Og::Acct(1), Og::Root];
	let methods = if thorough { vec![Method::Membership, Method::Native, Method::Rank, Method::Asset(7, 2)] } else { vec![Method::Membership, Method::Asset(7, 2)] };
	let ops = move |m: &Model| {
		let mut v = vec![];
		for id in [1u32, 2] {
			for by in [Og::Root, Og::Signed(A), Og::Nobody, Og::Signed(B)] {
				for admin in &admins {
					// a community's voice always speaks for itself: not a meaningful administrator of another
					if !matches!(admin, Og::Com(c) if *c != id) {
						v.push(Op::Create { by, admin: *admin, id });
					}
				}
			}
			for blocked in [true, false] {
				if m.communities.get(&id).map_or(false, |c| c.blocked != blocked) {
					v.push(Op::Block { id, blocked });
				}
			}
		}
		for by in all_origins() {
			let own = m.authority(by).ok();
			for to in &admins {
				if !matches!(to, Og::Com(c) if own.map_or(false, |o| o != *c)) {
					v.push(Op::Handover { by, to: *to });
				}
			}
			for id in [1, 2] {
				for method in &methods {
					v.push(Op::SetMethod { by, id, method: *method });
				}
			}
			v.push(Op::Dispatch { by, inner: Inner::Remark });
			v.push(Op::Add { by, who: A });
			v.push(Op::Remove { by, who: A, m: 1 });
			v.push(Op::Remove { by, who: C, m: 12 });
			v.push(Op::Promote { by, m: 1 });
			v.push(Op::Demote { by, m: 2 });
		}
		// ranks and removal of the probing members would only multiply the states
		v.retain(|op| match op {
			Op::Promote { m: x, .. } => m.memberships[x].rank == 0,
			Op::Demote { m: x, .. } => m.memberships[x].rank != 0 || m.memberships[x].holder.is_none(),
			Op::Remove { by, m: 12, .. } => m.authority(*by) != Ok(2),
			_ => true,
		});
		v
	};
	Scenario { name: "registry", init, ops: Box::new(ops), depth: 40, origins: all_origins(), watch_methods: true }
}

/// Enrolling, removing, ranks and transfers of memberships in two communities.
fn memberships(thorough: bool) -> Scenario {
	let mut init = blank(&[(1, 1), (2, 1), (3, 2)], &[], &[]);
	init = setup(
		init,
		&[
			Op::Create { by: Og::Root, admin: Og::Signed(A), id: 1 },
			Op::Create { by: Og::Root, admin: Og::Signed(B), id: 2 },
		],
	);
	let top = if thorough { 2 } else { 1 };
	let ops = move |m: &Model| {
		let mut v = vec![];
		let who = [A, B, C];
		for by in [Og::Signed(A), Og::Signed(B), Og::Com(1), Og::Com(2), Og::Signed(C), Og::Root, Og::Nobody, Og::Com(3), Og::Acct(1)] {
			for w in who {
				v.push(Op::Add { by, who: w });
				for x in [1, 2, 3, 9] {
					v.push(Op::Remove { by, who: w, m: x });
				}
			}
			for x in [1, 2, 3, 9] {
				if m.memberships.get(&x).map_or(true, |r| r.rank < top) {
					v.push(Op::Promote { by, m: x });
				}
				v.push(Op::Demote { by, m: x });
			}
		}
		for x in [1, 2, 3] {
			if let Some(f) = m.memberships[&x].holder {
				for t in who {
					if t != f {
						v.push(Op::Give { from: f, to: t, m: x });
					}
				}
			}
		}
		for id in [1, 2] {
			let b = m.communities[&id].blocked;
			if id == 1 || thorough {
				v.push(Op::Block { id, blocked: !b });
			}
		}
		v
	};
	Scenario { name: "memberships", init, ops: Box::new(ops), depth: 40, origins: all_origins(), watch_methods: false }
}
/// Every rank from the lowest to the highest and back.
fn ranks() -> Scenario {
	let init = base(&[(1, 1, A), (2, 1, B), (3, 2, C)], Method::Rank, &[]);
	let ops = |m: &Model| {
		let mut v = vec![];
		for by in [Og::Com(1), Og::Com(2)] {
			for x in [1, 2, 3] {
				let r = m.memberships[&x].rank;
				if x == 1 || r < 1 {
					v.push(Op::Promote { by, m: x });
				}
				v.push(Op::Demote { by, m: x });
			}
		}
		v
	};
	Scenario { name: "ranks", init, ops: Box::new(ops), depth: 600, origins: vec![], watch_methods: false }
}

/// Acting as the community's account.
fn dispatch() -> Vec<Scenario> {
	// who administers: a person, the community's own voice, or another community's account
	[(Og::Signed(A), Og::Acct(1)), (Og::Com(1), Og::Signed(B)), (Og::Acct(2), Og::Acct(1)), (Og::Root, Og::Com(2))]
		.into_iter()
		.map(|(a1, a2)| {
			let init = setup(
				blank(&[], &[(Og::Acct(1), 25), (Og::Acct(2), 25), (Og::Signed(A), 25), (Og::Signed(TREASURY), 5)], &[]),
				&[Op::Create { by: Og::Root, admin: a1, id: 1 }, Op::Create { by: Og::Root, admin: a2, id: 2 }],
			);
			let ops = |m: &Model| {
				let mut v = vec![];
				for by in all_origins() {
					for i in [
						Inner::Remark,
						Inner::Nested,
						Inner::Pay(10),
						Inner::Pay(100),
						Inner::Method(1, Method::Native),
						Inner::Method(2, Method::Rank),
						Inner::Method(2, Method::Membership),
					] {
						v.push(Op::Dispatch { by, inner: i });
					}
				}
				for id in [1, 2] {
					let b = m.communities[&id].blocked;
					v.push(Op::Block { id, blocked: !b });
				}
				v
			};
			Scenario { name: "dispatch", init, ops: Box::new(ops), depth: 40, origins: all_origins(), watch_methods: false }
		})
		.collect()
}

/// Voting operations over the given people, memberships, polls and votes.
fn voting_ops(m: &Model, members: &[u32], polls: &[u32], votes: &[V], finish: bool) -> Vec<Op> {
	let mut v = vec![];
	for p in polls {
		for by in [A, B, C].map(Og::Signed) {
			for x in members {
				for k in votes {
					v.push(Op::Vote { by, m: *x, poll: *p, v: *k });
				}
				v.push(Op::Unvote { by, m: *x, poll: *p });
			}
			v.push(Op::Unlock { by, poll: *p });
		}
		if finish && m.polls.get(p).map_or(false, |x| x.status == 0) {
			for status in [1, 3] {
				v.push(Op::Finish { poll: *p, status });
			}
		}
	}
	v
}
fn voting(name: &'static str, init: St, members: Vec<u32>, polls: Vec<u32>, votes: Vec<V>, finish: bool, more: impl Fn(&Model) -> Vec<Op> + Sync + 'static) -> Scenario {
	let ops = move |m: &Model| {
		// the accepted deviation accumulates: not followed beyond small numbers
		if m.polls.keys().any(|p| (3..1 << 20).contains(&m.deviation(*p))) {
			return vec![];
		}
		let mut v = voting_ops(m, &members, &polls, &votes, finish);
		v.extend(more(m));
		v
	};
	Scenario { name, init, ops: Box::new(ops), depth: 60, origins: vec![], watch_methods: false }
}

fn gifts(m: &Model, list: &[u32]) -> Vec<Op> {
	let mut v = vec![];
	for x in list {
		if let Some(f) = m.memberships[x].holder {
			for t in [A, B] {
				if t != f {
					v.push(Op::Give { from: f, to: t, m: *x });
				}
			}
		}
	}
	v
}

fn voting_scenarios(property: &str, thorough: bool) -> Vec<Scenario> {
	let mut out = vec![];
	let std = vec![V::Std(true), V::Std(false)];
	let wants = |list: &[&str]| list.contains(&property);
	if wants(&["M06", "M07", "M10", "M14", "M15"]) {
		// two communities with a poll each; a membership that changes hands and one that is taken away
		let init = base(&[(1, 1, A), (2, 1, B), (3, 2, C)], Method::Membership, &[(0, 1), (1, 2)]);
		out.push(voting("plain votes", init, vec![1, 2, 3, 9], vec![0, 1, 5], vec![V::Std(true), V::Std(false), V::Nat(true, 3)], true, |m| {
			let mut v = gifts(m, &[1]);
			v.push(Op::Vote { by: Og::Root, m: 1, poll: 0, v: V::Std(true) });
			v.push(Op::Vote { by: Og::Com(1), m: 1, poll: 0, v: V::Std(true) });
			v.push(Op::Unvote { by: Og::Nobody, m: 1, poll: 0 });
			v.push(Op::Remove { by: Og::Com(1), who: B, m: 2 });
			v
		}));
	}
	if wants(&["M06", "M07", "M14"]) {
		// a membership is taken away, passes to the other community and comes back
		let init = base(&[(2, 1, B), (3, 2, C)], Method::Membership, &[(0, 1), (1, 2)]);
		out.push(voting("a membership between two communities", init, vec![2, 3], vec![0, 1], std.clone(), false, |m| {
			let mut v = vec![];
			for (c, o, who) in [(1, 2, B), (2, 1, A)] {
				v.push(Op::Remove { by: Og::Com(c), who, m: 2 });
				v.push(Op::Cede { from: c, to: o, m: 2 });
				if m.memberships[&2].holder.is_none() {
					v.push(Op::Add { by: Og::Com(c), who });
				}
			}
			v
		}));
	}
	if wants(&["M06", "M07", "M08", "M10"]) {
		// native balances over two polls of one community
		let init = base(&[(1, 1, A), (2, 1, B)], Method::Native, &[(0, 1), (1, 1)]);
		let mut votes = vec![V::Nat(true, 5), V::Nat(false, 10), V::Nat(true, 11)];
		if thorough {
			votes.push(V::Nat(true, 20));
			votes.push(V::Nat(false, 1));
		}
		out.push(voting("native balance votes", init, vec![1, 2], vec![0, 1], votes, true, |m| gifts(m, &[1])));
	}
	if wants(&["M06", "M08", "M09", "M15"]) {
		let init = base(&[(1, 1, A), (2, 1, B)], Method::Asset(7, 2), &[(0, 1), (1, 1)]);
		let mut votes = vec![V::Ast(true, 7, 1), V::Ast(true, 7, 2), V::Ast(false, 7, 10), V::Ast(true, 8, 5)];
		if thorough {
			votes.extend([V::Nat(true, 5), V::Ast(false, 7, 20)]);
		}
		out.push(voting("asset votes", init, vec![1, 2], vec![0, 1], votes, true, |_| vec![]));
	}
	if wants(&["M06", "M10"]) {
		// ranks change between votes
		let init = base(&[(1, 1, A), (2, 1, B)], Method::Rank, &[(0, 1)]);
		out.push(voting("rank votes", init, vec![1, 2], vec![0], std.clone(), false, move |m| {
			let mut v = gifts(m, &[2]);
			for x in [1, 2] {
				if m.memberships[&x].rank < if thorough { 3 } else { 2 } {
					v.push(Op::Promote { by: Og::Com(1), m: x });
				}
				v.push(Op::Demote { by: Og::Com(1), m: x });
			}
			v
		}));
	}
	if wants(&["M06", "M08", "M09", "M02"]) {
		// the method changes between votes; thorough adds a second poll, bounded
		for polls in if thorough { vec![vec![0], vec![0, 1]] } else { vec![vec![0]] } {
			let init = base(&[(1, 1, A), (2, 1, B)], Method::Membership, &[(0, 1), (1, 1)]);
			let methods = [Method::Membership, Method::Native, Method::Asset(7, 2), Method::Rank];
			let votes = vec![V::Std(true), V::Nat(false, 5), V::Ast(true, 7, 4), V::Ast(true, 8, 4)];
			let two = polls.len() > 1;
			let mut sc = voting("changing decision methods", init, vec![1, 2], polls, votes, true, move |m| {
				let mut v = vec![];
				for method in methods {
					if m.method(1) != method {
						v.push(Op::SetMethod { by: Og::Com(1), id: 1, method });
					}
				}
				if m.memberships[&1].rank < 2 {
					v.push(Op::Promote { by: Og::Com(1), m: 1 });
				}
				v
			});
			if two {
				sc.name = "changing decision methods, two polls";
				sc.depth = 6;
			}
			out.push(sc);
		}
	}
	if wants(&["M08"]) {
		// one membership in three polls; then over three currencies
		let init = base(&[(1, 1, A)], Method::Native, &[(0, 1), (1, 1), (2, 1)]);
		out.push(voting("three polls", init, vec![1], vec![0, 1, 2], vec![V::Nat(true, 5), V::Nat(false, 10), V::Nat(true, 20)], true, |_| vec![]));
		let init = base(&[(1, 1, A)], Method::Asset(7, 2), &[(0, 1), (1, 1), (2, 1)]);
		let votes = vec![V::Ast(true, 7, 5), V::Ast(true, 8, 6), V::Nat(true, 4), V::Ast(false, 7, 10)];
		out.push(voting("three polls and currencies", init, vec![1], vec![0, 1, 2], votes, true, |m| {
			let mut v = vec![];
			for method in [Method::Native, Method::Asset(7, 2), Method::Asset(8, 1)] {
				if m.method(1) != method {
					v.push(Op::SetMethod { by: Og::Com(1), id: 1, method });
				}
			}
			v
		}));
	}
	if wants(&["M06", "M07", "M08"]) {
		// one account with two memberships
		let init = base(&[(1, 1, A), (2, 1, A)], Method::Native, &[(0, 1), (1, 1)]);
		out.push(voting("two memberships of one account", init, vec![1, 2], vec![0, 1], vec![V::Nat(true, 5), V::Nat(false, 10)], true, |_| vec![]));
	}
	if wants(&["M08"]) {
		// the same while the method changes, so that votes that lock and votes that do not meet in one poll
		let init = base(&[(1, 1, A), (2, 1, A)], Method::Native, &[(0, 1), (1, 1)]);
		let votes = vec![V::Std(true), V::Nat(true, 5), V::Nat(false, 10)];
		out.push(voting("two memberships of one account, changing decision methods", init, vec![1, 2], vec![0, 1], votes, true, |m| {
			let to = if m.method(1) == Method::Native { Method::Membership } else { Method::Native };
			vec![Op::SetMethod { by: Og::Com(1), id: 1, method: to }]
		}));
	}
	if wants(&["M06", "M08", "M10"]) {
		// weights at the top of the range
		let big = [u32::MAX as u64 - 1, u32::MAX as u64, 1 << 40];
		let init = base_with(
			&[(1, 1, A), (2, 1, B)],
			&[(1, 1), (2, 1)],
			&[(Og::Signed(A), 1 << 41), (Og::Signed(B), 1 << 41), (Og::Signed(C), 10)],
			&[(7, A, 20)],
			Method::Native,
			&[(0, 1)],
		);
		let votes = big.iter().flat_map(|n| [V::Nat(true, *n), V::Nat(false, *n)]).chain([V::Nat(true, 2)]).collect();
		out.push(voting("large balances", init, vec![1, 2], vec![0], votes, true, |_| vec![]));
	}
	if property == "M09" {
		// every method x every kind of vote x boundary amounts, fresh and as second vote
		for method in [Method::Membership, Method::Native, Method::Asset(7, 2), Method::Asset(8, 5), Method::Rank, Method::Asset(7, 0)] {
			let init = base(&[(1, 1, A)], method, &[(0, 1)]);
			let mut votes = vec![];
			for aye in [true, false] {
				votes.push(V::Std(aye));
				for n in [0, 1, 2, 3, 4, 5, 6, 20, 21] {
					votes.push(V::Nat(aye, n));
					votes.push(V::Ast(aye, 7, n));
					votes.push(V::Ast(aye, 8, n));
				}
			}
			out.push(voting("all votes under one method", init, vec![1], vec![0], votes, false, |_| vec![]));
		}
	}
	if thorough && wants(&["M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M11", "M14", "M15"]) {
		// everything together, bounded
		let init = base(&[(1, 1, A), (3, 2, B)], Method::Membership, &[(0, 1), (1, 2)]);
		let mut sc = voting("everything", init, vec![1, 3], vec![0, 1], vec![V::Std(true), V::Nat(false, 5)], true, |m| {
			let mut v = gifts(m, &[1]);
			for by in [Og::Com(1), Og::Com(2), Og::Signed(A)] {
				for to in [Og::Signed(A), Og::Com(1), Og::Com(2)] {
					if !matches!(to, Og::Com(c) if m.authority(by).map_or(false, |o| o != c)) {
						v.push(Op::Handover { by, to });
					}
				}
				for id in [1, 2] {
					for method in [Method::Membership, Method::Native] {
						v.push(Op::SetMethod { by, id, method });
					}
				}
				for x in [1, 3] {
					v.push(Op::Remove { by, who: A, m: x });
					if m.memberships[&x].rank < 1 {
						v.push(Op::Promote { by, m: x });
					}
				}
				v.push(Op::Add { by, who: A });
				v.push(Op::Dispatch { by, inner: Inner::Remark });
			}
			for id in [1, 2] {
				v.push(Op::Block { id, blocked: !m.communities[&id].blocked });
			}
			v
		});
		sc.depth = 5;
		sc.origins = all_origins();
		out.push(sc);
	}
	out
}

fn main() {
	let property = std::env::args().nth(1).expect("property");
	let run = Run::new(&property);
	let t = run.thorough();
	run.assume("the libraries around the pallet are stand-ins written for these checks; the repository's own unit tests of the pallet pass on them");
	if let "M12" | "M13" = property.as_str() {
		grids::run(&run);
		run.finish();
	}
	let layout = guard(Layout::probe).ok().flatten();
	run.info("tally_sums_readable", json!(layout.is_some()));
	let tally = Tallier::default();
	let mut list = vec![];
	let wants = |l: &[&str]| l.contains(&property.as_str());
	if wants(&["M01", "M02", "M03", "M15"]) {
		list.push(registry(t));
	}
	if wants(&["M02", "M03", "M04", "M05", "M14", "M15"]) {
		list.push(memberships(t));
	}
	if property == "M05" {
		list.push(ranks());
	}
	if wants(&["M02", "M03", "M11", "M15"]) {
		list.extend(dispatch());
	}
	list.extend(voting_scenarios(&property, t));
	if property == "M10" {
		grids::ratios(&run);
	}
	for sc in list {
		explore(&run, sc, &tally, layout);
	}
	run.info("successful_steps_by_kind", tally.json());
	if !run.failed() {
		let must: &[&str] = match property.as_str() {
			"M01" => &["create community", "hand over administration", "block"],
			"M02" => &["set decision method", "add member", "remove member", "promote", "demote", "dispatch as community"],
			"M03" => &["block", "hand over administration", "dispatch as community", "add member"],
			"M04" => &["add member", "remove member", "transfer membership"],
			"M05" => &["promote", "demote"],
			"M06" => &["vote", "remove vote", "promote", "set decision method", "finish poll"],
			"M07" => &["vote", "remove vote", "finish poll"],
			"M08" => &["vote", "remove vote", "unlock", "finish poll"],
			"M09" => &["vote"],
			"M10" => &["vote"],
			"M14" => &["add member", "remove member", "transfer membership"],
			"M15" => &["create community", "hand over administration", "set decision method", "add member", "promote", "vote", "remove vote", "unlock"],
			_ => &["dispatch as community"],
		};
		for k in must {
			if tally.get(k) == 0 {
				eprintln!("'{k}' never succeeded: error of the check");
				std::process::exit(3);
			}
		}
	}
	run.finish();
}
