//! P01-P12: every interleaving of payment calls, actors and blocks on the real pallet, compared step by
//! step with an independent ledger that knows only the stated rules.
mod model;
mod rt;

use frame_support::traits::fungibles::{Inspect, InspectHold};
use sp_runtime::traits::Dispatchable;
use mc_core::serde_json::{json, Value};
use mc_core::{bfs, guard, par_for, Run, Succ, Tallier};
use model::*;
use pallet_payments::{Call, Event, DisputeResult, PaymentState, Role};
use parity_scale_codec::Encode;
use rt::*;
use shim_base::ext;
use sp_runtime::Percent;

#[derive(Clone)]
struct St {
	map: ext::Map,
	model: Model,
}

struct Scenario {
	name: &'static str,
	cfg: Cfg,
	balances: Vec<(u32, u64, u64)>,
	/// everybody can afford everything: every step the rules allow must succeed
	ample: bool,
	create: Vec<Op>,
	max_payments: usize,
	rulings: Vec<(bool, u8)>,
	depth: usize,
	max_block: u64,
	/// changes of terms and other events of the surroundings
	tariffs: Vec<Op>,
}

fn call(op: &Op) -> (RuntimeOrigin, RuntimeCall) {
	let who = |a: &Actor| match a {
		Actor::Signed(x) => RuntimeOrigin::signed(*x),
		Actor::Root => RuntimeOrigin::root(),
	};
	match op {
		Op::Pay { by, to, asset, amount } => {
			(who(by), Call::new_call_variant_pay(*to, *asset, *amount, remark(*amount).map(|r| r.to_vec().try_into().expect("short"))).into())
		}
		Op::Request { by, from, asset, amount } => {
			(who(by), Call::new_call_variant_request_payment(*from, *asset, *amount).into())
		}
		Op::Release { by, id } => (who(by), Call::new_call_variant_release(*id).into()),
		Op::Refund { by, id } => (who(by), Call::new_call_variant_request_refund(*id).into()),
		Op::Accept { by, id } => (who(by), Call::new_call_variant_accept_and_pay(*id).into()),
		Op::Cancel { by, id } => (who(by), Call::new_call_variant_cancel(*id).into()),
		Op::Dispute { by, id } => (who(by), Call::new_call_variant_dispute_refund(*id).into()),
		Op::Resolve { by, id, to_sender, percent } => (
			who(by),
			Call::new_call_variant_resolve_dispute(*id, DisputeResult {
					percent_beneficiary: Percent::from_percent(*percent),
					in_favor_of: if *to_sender { Role::Sender } else { Role::Beneficiary },
				})
			.into(),
		),
		Op::NextBlock | Op::BusyBlock | Op::Tariff(..) => unreachable!(),
	}
}

fn state_of(p: &pallet_payments::PaymentDetail<Rt>) -> PState {
	match p.state {
		PaymentState::Created => PState::Created,
		PaymentState::NeedsReview => PState::Review,
		PaymentState::RefundRequested { cancel_block } => PState::Refund(cancel_block),
		PaymentState::PaymentRequested => PState::Requested,
		PaymentState::Finished => PState::Finished,
	}
}

fn holdings() -> Holdings {
	let mut h = Holdings::new();
	for a in ASSETS {
		for w in ACCOUNTS {
			let held = <Assets as InspectHold<u64>>::total_balance_on_hold(a, &w);
			let total = <Assets as Inspect<u64>>::balance(a, &w) + held;
			h.insert((a, w), (total as i128, held as i128));
		}
	}
	h
}
fn supplies() -> Vec<u64> {
	ASSETS.iter().map(|a| <Assets as Inspect<u64>>::total_issuance(*a)).collect()
}
fn record(id: u32, sender: u64) -> Option<pallet_payments::PaymentDetail<Rt>> {
	pallet_payments::Payment::<Rt>::get(sender, id).ok()
}

/// Outcome of one step on the real code.
struct Step {
	ok: bool,
	changed: bool,
	panic: Option<String>,
	map: ext::Map,
	/// what the pallet announced
	said: Vec<Event<Rt>>,
}

/// Executes `op` on the restored state. The resulting chain state stays loaded.
fn execute(map: &ext::Map, op: &Op) -> Step {
	ext::restore(map);
	let r = guard(|| match op {
		Op::NextBlock => {
			next_block();
			true
		}
		Op::BusyBlock => {
			busy_block();
			true
		}
		Op::Tariff(s, b, incentive) => {
			Cfg { sender_fees: s.clone(), beneficiary_fees: b.clone(), incentive: *incentive, ..Cfg::get() }.put();
			true
		}
		op => {
			let (origin, call) = call(op);
			call.dispatch(origin).is_ok()
		}
	});
	match r {
		Ok(ok) => {
			let changed_raw = !ok && ext::snapshot() != *map;
			let said = System::events()
				.into_iter()
				.filter_map(|e| match e.event {
					RuntimeEvent::Payments(e) => Some(e),
					_ => None,
				})
				.collect();
			System::reset_events();
			Step { ok, changed: changed_raw, panic: None, map: ext::snapshot(), said }
		}
		Err(p) => Step { ok: false, changed: false, panic: Some(p), map: map.clone(), said: vec![] },
	}
}

/// What the world should hear about a step that succeeded.
fn announcement(before: &Model, after: &Model, op: &Op) -> Vec<Event<Rt>> {
	let newest = || after.payments.values().find(|p| p.state != PState::Gone && before.payments.get(&p.id).map_or(true, |o| o.state == PState::Gone)).map(|p| p.id).expect("created");
	match op {
		Op::Pay { asset, amount, .. } => {
			vec![Event::PaymentCreated { payment_id: newest(), asset: *asset, amount: *amount, remark: remark(*amount).map(|r| r.to_vec().try_into().expect("short")) }]
		}
		Op::Request { .. } => vec![Event::PaymentRequestCreated { payment_id: newest() }],
		Op::Release { id, .. } => vec![Event::PaymentReleased { payment_id: *id }],
		Op::Accept { id, .. } => vec![Event::PaymentRequestCompleted { payment_id: *id }],
		Op::Refund { id, .. } => match after.payments[id].state {
			PState::Refund(expiry) => vec![Event::PaymentCreatorRequestedRefund { payment_id: *id, expiry }],
			_ => unreachable!("a refund is pending"),
		},
		Op::Cancel { id, .. } => match before.payments[id].state {
			PState::Refund(_) => vec![Event::PaymentRefunded { payment_id: *id }],
			_ => vec![Event::PaymentCancelled { payment_id: *id }],
		},
		Op::Dispute { id, .. } => vec![Event::PaymentRefundDisputed { payment_id: *id }],
		Op::Resolve { id, .. } => vec![Event::PaymentDisputeResolved { payment_id: *id }],
		Op::NextBlock => before.payments.values().filter(|p| p.overdue(after.now)).map(|p| Event::PaymentRefunded { payment_id: p.id }).collect(),
		Op::Tariff(..) | Op::BusyBlock => vec![],
	}
}

struct Ctx<'a> {
	run: &'a Run,
	tally: &'a Tallier,
	two: bool,
	collide: bool,
	personal: bool,
}

impl Ctx<'_> {
	fn report(&self, props: &[&str], key: &str, case: impl FnOnce() -> Value) {
		if props.contains(&self.run.property.as_str()) {
			self.run.fail(key, case());
		}
	}
}

/// Executes one step, compares it with the rules; returns the successor if it is worth exploring.
fn step(ctx: &Ctx, s: &St, op: &Op, ample: bool, trace: &dyn Fn() -> Vec<String>) -> Option<St> {
	let before_supply = {
		ext::restore(&s.map);
		(supplies(), holdings())
	};
	let r = execute(&s.map, op);
	let case = |why: &str, more: Value| {
		let mut t = trace();
		t.push(op.to_string());
		json!({"history": t, "config": format!("{:?}", s.model.cfg), "what": why, "detail": more})
	};
	let kind = op.kind();
	if let Some(p) = r.panic {
		ctx.report(&["P03", op.main_property()], &format!("{kind}: panics"), || case("the call panics", json!(p)));
		return None;
	}
	let (supply, hold) = (supplies(), holdings());
	// P01: nothing is created or destroyed, whatever the outcome
	let sums = |h: &Holdings| ASSETS.map(|a| h.iter().filter(|(k, _)| k.0 == a).map(|(_, v)| v.0).sum::<i128>());
	if supply != before_supply.0 || sums(&hold) != sums(&before_supply.1) {
		ctx.report(&["P01"], &format!("{kind}: funds created or destroyed"), || {
			case("supply or sum of holdings changed", json!({"supply": [before_supply.0, supply], "sums": format!("{:?} -> {:?}", sums(&before_supply.1), sums(&hold))}))
		});
	}
	let now = s.model.now;
	let allowed = s.model.apply(op);
	if !r.ok && !r.said.is_empty() {
		ctx.report(&["P11"], &format!("{kind}: something is announced although nothing happened"), || case("announcement of a failed attempt", json!(format!("{:?}", r.said))));
	}
	let Some(next) = allowed else {
		if r.ok {
			let mut props = vec!["P03"];
			match op {
				Op::Accept { .. } => props.push("P08"),
				Op::Release { .. } => props.push("P04"),
				Op::Cancel { .. } => props.push("P05"),
				Op::Resolve { .. } => props.push("P06"),
				Op::Dispute { .. } | Op::Refund { .. } => props.push("P07"),
				Op::Pay { .. } | Op::Request { .. } => props.push("P10"),
				_ => {}
			}
			ctx.report(&props, &format!("{kind}: succeeds although the rules forbid it"), || {
				case("an attempt the lifecycle does not allow succeeded", json!(s.model.describe()))
			});
		} else if r.changed {
			ctx.report(&["P03", "P01"], &format!("{kind}: failed attempt changes the state"), || case("state changed by a failed attempt", json!(null)));
		}
		return None;
	};
	if !r.ok {
		if r.changed {
			ctx.report(&["P03", "P01"], &format!("{kind}: failed attempt changes the state"), || case("state changed by a failed attempt", json!(null)));
		}
		// what is already set aside can always be given back or paid out
		let always = matches!(op, Op::Cancel { .. } | Op::Release { .. } | Op::Refund { .. } | Op::Request { .. });
		if ample || always {
			let mut props = vec!["P03", op.main_property()];
			if ctx.two || ctx.collide {
				props.push("P10");
			}
			if matches!(op, Op::Dispute { .. } | Op::Refund { .. }) {
				props.push("P07");
			}
			if matches!(op, Op::Accept { .. }) {
				props.push("P04");
			}
			ctx.report(&props, &format!("{kind}: rejected although the rules allow it"), || {
				case("a step the lifecycle allows was rejected", json!(s.model.describe()))
			});
		}
		return None;
	}
	ctx.tally.hit(kind);
	if ctx.tally.get(kind) == 1 {
		let mut t = trace();
		t.push(op.to_string());
		ctx.run.sample(json!({"history": t, "holdings": format!("{:?}", next.holdings)}));
	}
	let mut due = announcement(&s.model, &next, op);
	let mut said = r.said.clone();
	due.sort_by_key(|e| e.encode());
	said.sort_by_key(|e| e.encode());
	if said != due {
		ctx.report(&["P11"], &format!("{kind}: announced otherwise"), || case("announcement", json!({"expected": format!("{due:?}"), "found": format!("{said:?}")})));
	}
	// records follow the lifecycle
	let mut lost = false;
	for p in next.payments.values() {
		let got = record(p.id, p.sender);
		let want = p.state;
		let shown = got.as_ref().map(state_of);
		let same = match (&got, want) {
			(None, PState::Gone) => true,
			(Some(g), w) => {
				state_of(g) == w && g.amount == p.amount && g.asset == p.asset && g.beneficiary == p.beneficiary && g.incentive_amount == p.incentive
			}
			_ => false,
		};
		let touched = op.id() == Some(p.id) || s.model.payments.get(&p.id).map_or(true, |o| o.state != p.state || o.sender != p.sender);
		if !same {
			lost = true;
			let mut props = vec!["P03"];
			match op {
				Op::NextBlock | Op::BusyBlock => props.extend(["P07"]),
				Op::Dispute { .. } | Op::Refund { .. } => props.push("P07"),
				_ => props.push(op.main_property()),
			}
			if !touched || ctx.collide {
				props.push("P10");
			}
			if matches!(op, Op::Accept { .. } | Op::Request { .. }) {
				props.push("P08");
			}
			ctx.report(&props, &format!("{kind}: payment in the wrong state"), || {
				case("payment record does not match the lifecycle", json!({"payment": p.id, "block": now, "expected": format!("{want:?}"), "found": format!("{shown:?}")}))
			});
		}
		if !touched && !matches!(op, Op::NextBlock | Op::BusyBlock) {
			let old = { s.map.clone() };
			let new = ext::snapshot();
			ext::restore(&old);
			let a = record(p.id, p.sender).map(|r| r.encode());
			ext::restore(&new);
			let b = record(p.id, p.sender).map(|r| r.encode());
			if a != b {
				ctx.report(&["P10"], &format!("{kind}: changes another payment's record"), || case("another payment's record changed", json!(p.id)));
			}
		}
	}
	let n_records = pallet_payments::Payment::<Rt>::iter().count();
	let want_records = next.payments.values().filter(|p| p.state != PState::Gone).count();
	if n_records != want_records {
		lost = true;
		ctx.report(&["P03", "P10"], &format!("{kind}: unexpected number of payments"), || case("number of payment records", json!([want_records, n_records])));
	}
	// holdings
	for (k, (total, held)) in &next.holdings {
		let (t, h) = hold[k];
		if h != *held {
			let mut props = vec!["P02"];
			match op {
				Op::Cancel { .. } | Op::NextBlock => props.push("P05"),
				Op::Resolve { .. } => props.push("P06"),
				Op::Request { .. } | Op::Accept { .. } => props.push("P08"),
				Op::Release { .. } => props.push("P04"),
				_ => {}
			}
			if ctx.two || ctx.collide {
				props.push("P10");
			}
			ctx.report(&props, &format!("{kind}: held funds differ from what open payments require"), || {
				case("held funds", json!({"account": k.1, "asset": k.0, "expected": held.to_string(), "found": h.to_string()}))
			});
		}
		if t != *total {
			let mut props = vec![];
			match op {
				Op::Cancel { .. } => props.push("P05"),
				Op::NextBlock => props.extend(["P05", "P07"]),
				Op::Resolve { .. } => props.push("P06"),
				Op::Request { .. } => props.push("P08"),
				Op::Accept { .. } => props.extend(["P08", "P04"]),
				Op::Release { .. } => props.push("P04"),
				_ => props.push("P02"),
			}
			if ctx.run.property == "P09" {
				props.push("P09");
			}
			if ctx.two || ctx.collide {
				props.push("P10");
			}
			ctx.report(&props, &format!("{kind}: holdings differ from the rules"), || {
				case("holdings", json!({"account": k.1, "asset": k.0, "expected": total.to_string(), "found": t.to_string(), "payments": next.describe()}))
			});
		}
	}
	if ctx.personal {
		for p in next.payments.values() {
			let fees = |l: &[(u64, u64, bool)]| l.to_vec();
			if record(p.id, p.sender).is_some_and(|g| fees(&g.fees.sender_pays) != p.sfees || fees(&g.fees.beneficiary_pays) != p.bfees) {
				ctx.report(&["P12"], &format!("{kind}: other fees than agreed on"), || case("fees of a payment", json!({"payment": p.id})));
			}
		}
		if next.holdings.iter().any(|(k, v)| hold[k] != *v) {
			ctx.report(&["P12"], &format!("{kind}: holdings differ from the terms agreed on"), || case("holdings", json!({"expected": format!("{:?}", next.holdings), "found": format!("{hold:?}"), "payments": next.describe()})));
		}
	}
	if lost {
		return None;
	}
	Some(St { map: r.map, model: next })
}

fn start(sc: &Scenario) -> St {
	let map = genesis(&sc.cfg, &sc.balances, &ACCOUNTS);
	ext::restore(&map);
	let model = Model::new(sc.cfg.clone(), holdings());
	St { map, model }
}

fn ops(sc: &Scenario, s: &St) -> Vec<Op> {
	let mut v = vec![];
	if s.model.now < sc.max_block {
		v.push(Op::NextBlock);
	}
	let open = s.model.created;
	if open < sc.max_payments {
		v.extend(sc.create.iter().cloned());
	}
	for t in &sc.tariffs {
		let Op::Tariff(a, b, i) = t else {
			if s.model.now < sc.max_block {
				v.push(t.clone());
			}
			continue;
		};
		if (&s.model.cfg.sender_fees, &s.model.cfg.beneficiary_fees, &s.model.cfg.incentive) != (a, b, i) {
			v.push(t.clone());
		}
	}
	let mut ids: Vec<u32> = s.model.payments.keys().copied().collect();
	if ids.is_empty() {
		// also attempts on a payment that does not exist
		ids.push(1);
	}
	for id in ids {
		for by in [S, B, X, R].map(Actor::Signed).into_iter().chain([Actor::Root]) {
			v.push(Op::Release { by, id });
			v.push(Op::Refund { by, id });
			v.push(Op::Accept { by, id });
			v.push(Op::Cancel { by, id });
			v.push(Op::Dispute { by, id });
			for (to_sender, percent) in sc.rulings.iter().copied() {
				v.push(Op::Resolve { by, id, to_sender, percent });
			}
		}
	}
	v
}

fn explore(run: &Run, sc: &Scenario, tally: &Tallier) {
	let ctx = Ctx { run, tally, two: sc.max_payments > 1 && sc.cfg.ids == 0, collide: sc.cfg.ids > 0, personal: sc.cfg.personal };
	let e = bfs(
		vec![start(sc)],
		|s: &St| (s.map.clone().encode(), s.model.encode()),
		sc.depth,
		3_000_000,
		|s, trace| {
			let list = ops(sc, s);
			run.traces(list.len() as u64);
			let mut out = vec![];
			for op in list {
				if let Some(n) = step(&ctx, s, &op, sc.ample, trace) {
					out.push(Succ { label: op.to_string(), state: n });
				}
			}
			out
		},
	);
	if !e.fixpoint {
		run.not_exhaustive();
	}
	run.states(e.states);
	run.transitions(e.transitions);
	run.info(
		&format!("explored {}", sc.name),
		json!({"states": e.states, "changing_transitions": e.transitions, "depth": e.depth, "complete": e.fixpoint}),
	);
}

/// Runs a fixed path of allowed steps, checking each.
fn path(run: &Run, tally: &Tallier, sc: &Scenario, list: &[Op]) {
	let ctx = Ctx { run, tally, two: false, collide: false, personal: sc.cfg.personal };
	let mut s = start(sc);
	let mut done: Vec<String> = vec![];
	for op in list {
		let d = done.clone();
		let trace = move || d.clone();
		run.transitions(1);
		match step(&ctx, &s, op, sc.ample, &trace) {
			Some(n) => s = n,
			None => break,
		}
		done.push(op.to_string());
	}
	run.states(1);
	run.traces(1);
}

fn schedules() -> Vec<(&'static str, Vec<FeeEntry>, Vec<FeeEntry>)> {
	use FeeSpec::*;
	vec![
		("no fees", vec![], vec![]),
		(
			"optional fixed and mandatory share",
			vec![(F1, Fixed(2), false), (F2, Percent(15), true)],
			vec![(F1, Fixed(3), false), (F2, Percent(15), true)],
		),
		(
			"one receiver with mandatory and optional fees",
			vec![(F1, Fixed(1), true), (F1, Fixed(2), false), (F2, Fixed(1), false), (F2, Percent(10), true)],
			vec![(F2, Fixed(2), false), (F2, Fixed(1), true)],
		),
		("receiver repeated", vec![(F1, Fixed(1), true), (F2, Fixed(0), true), (F1, Percent(5), true)], vec![(F1, Fixed(1), false), (F1, Fixed(1), false)]),
		("parties receive fees", vec![(B, Fixed(2), true), (S, Fixed(1), false)], vec![(S, Fixed(1), true), (B, Fixed(1), false)]),
	]
}

fn rich() -> Vec<(u32, u64, u64)> {
	let mut v = vec![];
	for a in ASSETS {
		for w in ACCOUNTS {
			v.push((a, w, 1_000));
		}
	}
	v
}
fn very_rich() -> Vec<(u32, u64, u64)> {
	rich().into_iter().map(|(a, w, _)| (a, w, 1 << 50)).collect()
}
fn cfg(i: usize) -> Cfg {
	let (_, s, b) = schedules().swap_remove(i);
	Cfg { sender_fees: s, beneficiary_fees: b, incentive: 10, buffer: 2, ids: 0, resolver: R, personal: false }
}
fn pay(by: u64, to: u64, asset: u32, amount: u64) -> Op {
	Op::Pay { by: Actor::Signed(by), to, asset, amount }
}
fn req(by: u64, from: u64, asset: u32, amount: u64) -> Op {
	Op::Request { by: Actor::Signed(by), from, asset, amount }
}

fn scenarios(run: &Run) -> Vec<Scenario> {
	let t = run.thorough();
	let r = vec![(true, 50), (false, 30)];
	let mut v = vec![];
	for i in 0..schedules().len() {
		v.push(Scenario {
			name: ["single/0", "single/1", "single/2", "single/3", "single/4"][i],
			cfg: cfg(i),
			balances: rich(),
			ample: true,
			create: vec![pay(S, B, 1, 20), req(B, S, 1, 20)],
			max_payments: 1,
			rulings: r.clone(),
			depth: 60,
			max_block: 8,
			tariffs: vec![],
		});
	}
	let one = vec![(true, 50)];
	v.push(Scenario {
		name: "two payments, same parties and asset",
		cfg: cfg(1),
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), pay(S, B, 1, 33), req(B, S, 1, 20)],
		max_payments: 2,
		rulings: one.clone(),
		depth: 60,
		max_block: 7,
		tariffs: vec![],
	});
	v.push(Scenario {
		name: "two payments, crossing parties and assets",
		cfg: cfg(2),
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), pay(B, S, 1, 40), pay(X, B, 2, 20), req(X, S, 2, 20)],
		max_payments: 2,
		rulings: vec![(false, 70)],
		depth: 60,
		max_block: 6,
		tariffs: vec![],
	});
	v.push(Scenario {
		name: "identifier collisions",
		cfg: Cfg { ids: 1, ..cfg(1) },
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), pay(X, B, 1, 10), req(B, S, 1, 30), req(X, S, 1, 10), pay(S, X, 2, 10)],
		max_payments: 3,
		rulings: one.clone(),
		depth: 60,
		max_block: 5,
		tariffs: vec![],
	});
	v.push(Scenario {
		name: "identifiers cycling through two values",
		cfg: Cfg { ids: 2, ..cfg(0) },
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), req(X, S, 1, 10)],
		max_payments: 4,
		rulings: one.clone(),
		depth: 60,
		max_block: 4,
		tariffs: vec![],
	});
	// S can just afford it, B and the receivers start with nothing
	v.push(Scenario {
		name: "scarce balances",
		cfg: cfg(1),
		balances: vec![(1, S, 28), (1, R, 5), (1, X, 3), (1, F1, 1), (1, F2, 1)],
		ample: false,
		create: vec![pay(S, B, 1, 20), req(B, S, 1, 20), pay(S, B, 1, 25)],
		max_payments: 2,
		rulings: vec![(true, 50), (false, 100), (true, 100)],
		depth: 60,
		max_block: 6,
		tariffs: vec![],
	});
	v.push(Scenario {
		name: "payer pays itself",
		cfg: cfg(1),
		balances: rich(),
		ample: true,
		create: vec![pay(S, S, 1, 20), req(S, S, 1, 20)],
		max_payments: 2,
		rulings: one.clone(),
		depth: 60,
		max_block: 6,
		tariffs: vec![],
	});
	for (i, buffer) in [(0, 1u64), (1, 3), (2, 4)] {
		v.push(Scenario {
			name: ["refund delay 1", "refund delay 3", "refund delay 4"][i],
			cfg: Cfg { buffer, ..cfg(1) },
			balances: rich(),
			ample: true,
			create: vec![pay(S, B, 1, 20)],
			max_payments: 1 + (buffer == 3) as usize,
			rulings: one.clone(),
			depth: 60,
			max_block: 9,
			tariffs: vec![],
		});
	}
	// the chain may be too busy to refund in time
	v.push(Scenario {
		name: "busy blocks",
		cfg: cfg(1),
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), pay(S, X, 1, 33)],
		max_payments: 2,
		rulings: one.clone(),
		depth: 60,
		max_block: 7,
		tariffs: vec![Op::BusyBlock],
	});
	for (i, name) in ["three payments/0", "three payments/1"].into_iter().enumerate().take(if t { 2 } else { 1 }) {
		v.push(Scenario {
			name,
			cfg: cfg(i + 1),
			balances: rich(),
			ample: true,
			create: if i == 0 { vec![pay(S, B, 1, 20), req(B, S, 1, 30)] } else { vec![pay(S, B, 1, 20), pay(X, B, 1, 11), req(B, S, 1, 20)] },
			max_payments: 3,
			rulings: one.clone(),
			depth: 60,
			max_block: if t { 7 } else { 5 },
			tariffs: vec![],
		});
	}
	let tariff = |i: usize, incentive: u8| {
		let (_, a, b) = schedules().swap_remove(i);
		Op::Tariff(a, b, incentive)
	};
	v.push(Scenario {
		name: "terms for the parties, changing",
		cfg: Cfg { personal: true, ..cfg(1) },
		balances: rich(),
		ample: true,
		create: vec![pay(S, B, 1, 20), pay(B, X, 2, 21), req(B, S, 2, 33), req(S, X, 1, 20)],
		max_payments: if t { 2 } else { 1 },
		rulings: one.clone(),
		depth: 60,
		max_block: 5,
		tariffs: vec![tariff(1, 10), tariff(3, 20), tariff(0, 0)],
	});
	if !t {
		v.push(Scenario {
			name: "two payments under changing terms",
			cfg: Cfg { personal: true, ..cfg(1) },
			balances: rich(),
			ample: true,
			create: vec![pay(S, B, 1, 20), req(B, S, 1, 33)],
			max_payments: 2,
			rulings: one.clone(),
			depth: 60,
			max_block: 4,
			tariffs: vec![tariff(1, 10), tariff(3, 20)],
		});
	}
	if t {
		for (i, name) in ["pair/0", "pair/1", "pair/2", "pair/3", "pair/4"].into_iter().enumerate() {
			v.push(Scenario {
				name,
				cfg: Cfg { buffer: 3, ..cfg(i) },
				balances: rich(),
				ample: true,
				create: vec![pay(S, B, 1, 20), pay(B, S, 1, 41), pay(X, B, 1, 20), req(B, S, 1, 20), pay(S, B, 2, 20)],
				max_payments: 2,
				rulings: vec![(true, 50), (false, 100), (true, 1)],
				depth: 60,
				max_block: 9,
				tariffs: vec![],
			});
		}
	}
	v
}

fn direct(name: &'static str, c: Cfg) -> Scenario {
	Scenario { name, cfg: c, balances: very_rich(), ample: true, create: vec![], max_payments: 1, rulings: vec![], depth: 0, max_block: 0, tariffs: vec![] }
}

const AMOUNTS: [u64; 17] = [0, 1, 2, 3, 7, 9, 10, 11, 20, 33, 50, 99, 100, 101, 999, 12_345, 4_294_967_299];

/// Complete payment lives for every amount and fee schedule.
fn lives(run: &Run, tally: &Tallier) {
	let amounts: Vec<u64> = if run.thorough() { (0..=400).chain(AMOUNTS).collect() } else { AMOUNTS.to_vec() };
	let n = amounts.len() * schedules().len() * 3;
	par_for(n, 4, |i| {
		let a = amounts[i % amounts.len()];
		let sch = (i / amounts.len()) % schedules().len();
		let incentive = [10, 0, 37][i / amounts.len() / schedules().len()];
		let sc = direct("lives", Cfg { incentive, ..cfg(sch) });
		let id = 1;
		let (s, b, root) = (Actor::Signed(S), Actor::Signed(B), Actor::Root);
		// a receiver cannot pay fees beyond what it has: keep away from amounts below the fees for P04
		let lives: Vec<Vec<Op>> = vec![
			vec![pay(S, B, 1, a), Op::Release { by: s, id }],
			vec![req(B, S, 1, a), Op::Accept { by: s, id }],
			vec![pay(S, B, 1, a), Op::Cancel { by: b, id }],
			vec![pay(S, B, 1, a), Op::Refund { by: s, id }, Op::Cancel { by: b, id }, Op::NextBlock, Op::NextBlock],
			vec![pay(S, B, 1, a), Op::Refund { by: s, id }, Op::NextBlock, Op::NextBlock],
			vec![pay(S, B, 1, a), Op::Refund { by: s, id }, Op::NextBlock, Op::Dispute { by: b, id }, Op::NextBlock, Op::NextBlock, Op::Resolve { by: root, id, to_sender: true, percent: 35 }],
			vec![pay(S, B, 1, a), Op::Refund { by: s, id }, Op::NextBlock, Op::Dispute { by: b, id }, Op::Resolve { by: root, id, to_sender: false, percent: 35 }, Op::NextBlock, Op::NextBlock],
		];
		for l in lives {
			path(run, tally, &sc, &l);
		}
	});
}

fn dispute(id: u32, to_sender: bool, percent: u8, amount: u64) -> Vec<Op> {
	vec![
		pay(S, B, 1, amount),
		Op::Refund { by: Actor::Signed(S), id },
		Op::Dispute { by: Actor::Signed(B), id },
		Op::Resolve { by: Actor::Root, id, to_sender, percent },
	]
}

fn rulings(run: &Run, tally: &Tallier) {
	let amounts: Vec<u64> = if run.thorough() { (0..=130).chain(AMOUNTS).collect() } else { AMOUNTS.to_vec() };
	let n = amounts.len() * schedules().len() * 2;
	par_for(n, 1, |i| {
		let a = amounts[i % amounts.len()];
		let sch = (i / amounts.len()) % schedules().len();
		let to_sender = i / amounts.len() / schedules().len() == 0;
		for resolver in [R, F1, X] {
			if resolver != R && sch != 2 {
				continue;
			}
			let sc = direct("rulings", Cfg { resolver, ..cfg(sch) });
			for percent in 0..=100 {
				path(run, tally, &sc, &dispute(1, to_sender, percent, a));
			}
		}
	});
}

fn fee_lists(run: &Run, tally: &Tallier) {
	let mut entries: Vec<FeeEntry> = vec![];
	for w in [F1, F2] {
		for v in [0u64, 1, 5] {
			for m in [false, true] {
				entries.push((w, FeeSpec::Fixed(v), m));
			}
		}
	}
	let max = if run.thorough() { 4 } else { 3 };
	let mut lists: Vec<Vec<FeeEntry>> = vec![vec![]];
	for len in 1..=max {
		for i in 0..entries.len().pow(len as u32) {
			let mut i = i;
			let mut l = vec![];
			for _ in 0..len {
				l.push(entries[i % entries.len()].clone());
				i /= entries.len();
			}
			lists.push(l);
		}
	}
	run.info("fee_lists", json!(lists.len()));
	// every list on one side, against a fixed list on the other
	let fixed = vec![(F1, FeeSpec::Fixed(3), true), (F2, FeeSpec::Fixed(2), false)];
	par_for(lists.len() * 2, 8, |i| {
		let l = lists[i / 2].clone();
		let (s, b) = if i % 2 == 0 { (l, fixed.clone()) } else { (fixed.clone(), l) };
		let sc = direct("fee lists", Cfg { sender_fees: s, beneficiary_fees: b, incentive: 10, buffer: 2, ids: 0, resolver: R, personal: false });
		path(run, tally, &sc, &[pay(S, B, 1, 50), Op::Release { by: Actor::Signed(S), id: 1 }]);
		path(run, tally, &sc, &[req(B, S, 1, 50), Op::Accept { by: Actor::Signed(S), id: 1 }]);
		path(run, tally, &sc, &dispute(1, true, 40, 50));
		path(run, tally, &sc, &dispute(1, false, 40, 50));
		path(run, tally, &sc, &[pay(S, B, 1, 50), Op::Cancel { by: Actor::Signed(B), id: 1 }]);
	});
}

fn main() {
	let prop = std::env::args().nth(1).expect("property");
	let run = Run::new(&prop);
	let tally = Tallier::default();
	run.assume("asset ledger, scheduler and dispatch are stand-ins following the original framework; minimum asset balance is 1, so no dust arises");
	match prop.as_str() {
		"P06" => rulings(&run, &tally),
		"P09" => fee_lists(&run, &tally),
		_ => {}
	}
	if prop != "P09" {
		lives(&run, &tally);
		for sc in scenarios(&run) {
			let wanted = match prop.as_str() {
				"P10" => sc.max_payments > 1,
				"P12" => sc.cfg.personal,
				_ => true,
			};
			if wanted {
				explore(&run, &sc, &tally);
			}
		}
	}
	for k in ["pay", "release", "refund", "accept", "cancel", "dispute", "resolve", "block", "request"] {
		if tally.get(k) == 0 && !run.failed() && !(prop == "P09" && k == "block") {
			eprintln!("no successful `{k}` was explored: error of the check");
			std::process::exit(3);
		}
	}
	run.info("steps_that_changed_the_chain", tally.json());
	run.finish()
}
