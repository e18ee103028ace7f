//! K35: blocks are produced in turn by those chosen, who change by session and stay as long as they work.
use crate::world::*;
use frame_support::traits::{fungible, FindAuthor, Get};
use kreivo_runtime::{Aura, Authorship, Balances, CollatorSelection, Runtime, RuntimeGenesisConfig, Session, System};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use pallet_session::ShouldEndSession;
use shim_base::ext;
use sp_runtime::BuildStorage;

const BOND: u128 = 16 * UNIT;

type Find = <Runtime as pallet_authorship::Config>::FindAuthor;
type Ends = <Runtime as pallet_session::Config>::ShouldEndSession;

fn key(who: &Acc) -> Vec<u8> {
	let bytes: &[u8; 32] = who.as_ref();
	bytes.iter().map(|b| b ^ 0xff).collect()
}
fn pot() -> Acc {
	derived(b"modl", b"PotStake", &[])
}
fn native(a: &Acc) -> u128 {
	<Balances as fungible::Inspect<Acc>>::total_balance(a)
}
/// The two that may become candidates and the two nobody can drop; another one without a key.
fn people() -> [Acc; 5] {
	[1, 2, 0x21, 0x22, 5].map(acc)
}
fn chain(invulnerable: usize, in_pot: u128) -> ext::Map {
	let everybody = people();
	let t = RuntimeGenesisConfig { balances: kreivo_runtime::BalancesConfig { balances: everybody.iter().map(|a| (a.clone(), 1000 * UNIT)).chain([(pot(), in_pot)]).filter(|b| b.1 > 0).collect() }, ..Default::default() }.build_storage().unwrap();
	sp_io::TestExternalities::new(t).execute_with(|| {
		System::set_block_number(0);
		for a in &everybody[..4] {
			Session::put_key(a, key(a));
		}
		CollatorSelection::put_bond(BOND);
		let fixed = everybody[2..2 + invulnerable].to_vec();
		CollatorSelection::put_invulnerables(fixed.clone());
		if invulnerable == 0 {
			CollatorSelection::register(everybody[0].clone()).expect("the only one");
			Session::begin(vec![everybody[0].clone()]);
		} else {
			Session::begin(fixed);
		}
		ext::snapshot()
	})
}
/// Whose turn it is, slot by slot, for one round.
fn round() -> Vec<Option<Acc>> {
	(0..Aura::keys().len() as u64).map(Find::find_author).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
	Nothing,
	Join,
	Leave,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Work {
	Idle,
	Early,
	Late,
	Last,
}

pub fn k35(run: Run) {
	let tally = Tallier::default();
	let ed = <Balances as fungible::Inspect<Acc>>::minimum_balance();
	run.check(CollatorSelection::account_id() == pot(), "the pot is another account", || json!({"account": enc(&CollatorSelection::account_id())}));
	// all sessions are equally long, and that a matter of hours
	let slot: u64 = <<Runtime as pallet_aura::Config>::SlotDuration as Get<u64>>::get();
	let hour = (3_600_000 / slot.max(1)) as u32;
	let Some(session) = (1..=24 * hour).find(|n| Ends::should_end_session(*n)).filter(|n| *n >= hour) else {
		run.states(1);
		run.transitions(1);
		run.traces(1);
		run.fail("sessions are shorter than an hour or longer than a day", json!({"milliseconds of a slot": slot}));
		run.finish();
	};
	let days: u32 = if DEEP { 365 } else { 30 };
	for n in 1..=days * 24 * hour {
		let ends = Ends::should_end_session(n);
		run.states(1);
		if ends {
			tally.hit("end of a session");
		}
		run.check(ends == (n % session == 0), "sessions are not equally long", || json!({"block": n, "ends": ends, "first session": session}));
	}
	// every block of some sessions: everybody in turn, each is paid half of what is in the pot
	for fixed in 1..=2usize {
		for in_pot in [0, 1, ed, ed + 1, ed + 7, 2 * ed, 5 * UNIT] {
			if in_pot > 0 && in_pot < ed {
				continue;
			}
			ext::restore(&chain(fixed, in_pot));
			CollatorSelection::register(acc(1)).expect("registers");
			for n in 1..=3 * session {
				System::set_block_number(n);
				let producers: Vec<Acc> = Session::validators();
				let before: Vec<u128> = people().iter().map(native).collect();
				let had = native(&pot());
				let author = Authorship::begin(n as u64);
				Session::on_initialize(n);
				let case = || json!({"invulnerable": fixed, "in the pot": had.to_string(), "block": n, "author": author.as_ref().map(enc)});
				run.states(1);
				run.transitions(1);
				run.traces(1);
				run.check(author.as_ref() == producers.get(n as usize % producers.len().max(1)), "a block is somebody else's", case);
				let half = had.saturating_sub(ed) / 2;
				for (a, b) in people().iter().zip(&before) {
					let due = if Some(a) == author.as_ref() { half } else { 0 };
					run.check(native(a) == b + due, "the reward goes elsewhere or is another", || json!({"case": case(), "account": enc(a), "due": due.to_string(), "got": format!("{}", native(a) as i128 - *b as i128)}));
				}
				run.check(native(&pot()) == had - half, "the pot loses otherwise", case);
				if half > 0 {
					tally.hit("reward");
				}
			}
		}
	}
	// histories: candidates come, work, idle and go
	let acts = [Act::Nothing, Act::Join, Act::Leave];
	let works: &[Work] = if run.thorough() { &[Work::Idle, Work::Early, Work::Late, Work::Last] } else { &[Work::Idle, Work::Early, Work::Last] };
	let n = acts.len() * works.len();
	let (len, per) = (3u32, n * n);
	for fixed in 0..=2usize {
		let map = chain(fixed, 0);
		par_for(per.pow(len), 64, |i| {
			ext::restore(&map);
			let who = people();
			let word: Vec<[(Act, Work); 2]> = (0..len)
				.map(|p| {
					let c = i / per.pow(p) % per;
					[c % n, c / n].map(|x| (acts[x % acts.len()], works[x / acts.len()]))
				})
				.collect();
			let invulnerable: Vec<Acc> = who[2..2 + fixed].to_vec();
			// the model: candidates with the block until which they are excused
			let mut candidates: Vec<(Acc, u32)> = if fixed == 0 { vec![(who[0].clone(), 0)] } else { vec![] };
			let mut last: std::collections::BTreeMap<Acc, u32> = candidates.iter().map(|(a, _)| (a.clone(), session)).collect();
			let first: Vec<Acc> = if fixed == 0 { vec![who[0].clone()] } else { invulnerable.clone() };
			let (mut now, mut next) = (first.clone(), first);
			run.states(1);
			for (s, choice) in word.iter().enumerate() {
				let start = s as u32 * session;
				let case = || json!({"invulnerable": fixed, "history": format!("{word:?}"), "session": s});
				// after a few blocks of the session
				System::set_block_number(start + 10);
				for (c, (act, _)) in choice.iter().enumerate() {
					let in_it = candidates.iter().any(|x| x.0 == who[c]);
					let (got, want) = match act {
						Act::Nothing => continue,
						Act::Join => (guard(|| CollatorSelection::register(who[c].clone()).is_ok()), !in_it),
						Act::Leave => (guard(|| CollatorSelection::leave(who[c].clone()).is_ok()), in_it && candidates.len() + fixed > 1),
					};
					run.transitions(1);
					run.traces(1);
					run.check(got == Ok(want), "a candidate comes or goes otherwise", || json!({"case": case(), "who": c, "act": format!("{act:?}"), "expected": want}));
					if want && *act == Act::Join {
						candidates.push((who[c].clone(), 0));
						last.insert(who[c].clone(), start + 10 + session);
						tally.hit("joins");
					} else if want {
						candidates.retain(|x| x.0 != who[c]);
						tally.hit("leaves");
					}
				}
				run.check(guard(|| CollatorSelection::register(who[4].clone()).is_err()) == Ok(true), "somebody without a key becomes a candidate", case);
				let turn = round();
				let mut have: Vec<Acc> = turn.iter().flatten().cloned().collect();
				let mut want = now.clone();
				have.sort();
				want.sort();
				run.check(turn.iter().all(|t| t.is_some()) && have == want, "others than those chosen produce blocks", || json!({"case": case(), "producers": have.iter().map(enc).collect::<Vec<_>>(), "chosen": want.iter().map(enc).collect::<Vec<_>>()}));
				run.check(turn.iter().flatten().map(key).eq(Aura::keys()), "blocks are sealed with the key of somebody else", case);
				run.check(!have.is_empty(), "nobody produces blocks", case);
				for at in [20, session / 2, session] {
					System::set_block_number(start + at);
					for (c, (_, work)) in choice.iter().enumerate() {
						let due = match work {
							Work::Idle => continue,
							Work::Early => 20,
							Work::Late => session / 2,
							Work::Last => session,
						};
						// a block has one author
						if due != at || (at == session && c == 1 && choice[0].1 == Work::Last) {
							continue;
						}
						let Some(slot) = turn.iter().position(|t| t.as_ref() == Some(&who[c])) else { continue };
						run.transitions(1);
						let got = guard(|| Authorship::begin(slot as u64));
						run.check(got == Ok(Some(who[c].clone())), "a block is somebody else's", case);
						last.insert(who[c].clone(), start + at);
						tally.hit("works");
					}
				}
				let money: Vec<u128> = who.iter().map(|a| <Balances as fungible::Inspect<Acc>>::balance(a)).collect();
				run.check(guard(|| Session::on_initialize(start + session)).is_ok(), "the end of a session panics", case);
				run.transitions(1);
				run.traces(1);
				// those idle for a whole session go, unless nobody would be left
				let mut left = vec![];
				let all = candidates.clone();
				let mut remain = all.len() + fixed;
				for (a, x) in all {
					let idle = (start + session).saturating_sub(last[&a]) >= session;
					if idle && remain > 1 {
						remain -= 1;
						tally.hit("dropped");
						let c = who.iter().position(|w| *w == a).expect("known");
						run.check(<Balances as fungible::Inspect<Acc>>::balance(&a) == money[c] + BOND, "who is dropped loses the bond", case);
					} else {
						if idle {
							tally.hit("kept, being the last");
						}
						left.push((a, x));
					}
				}
				candidates = left;
				now = next;
				next = invulnerable.iter().cloned().chain(candidates.iter().map(|c| c.0.clone())).collect();
				let mut got: Vec<Acc> = CollatorSelection::candidates().into_iter().map(|c| c.0).collect();
				let mut want: Vec<Acc> = candidates.iter().map(|c| c.0.clone()).collect();
				got.sort();
				want.sort();
				run.check(got == want, "a working candidate is dropped or an idle one stays", || json!({"case": case(), "candidates": got.iter().map(enc).collect::<Vec<_>>(), "expected": want.iter().map(enc).collect::<Vec<_>>()}));
			}
		});
	}
	run.info("steps_by_kind", tally.json());
	run.sample(json!({"blocks of a session": session, "account of the pot": enc(&pot())}));
	for k in ["end of a session", "reward", "joins", "leaves", "works", "dropped", "kept, being the last"] {
		if tally.get(k) == 0 && !run.failed() {
			eprintln!("'{k}' never happened: error of the check");
			std::process::exit(3);
		}
	}
	run.finish()
}
